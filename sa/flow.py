"""Path-sensitive (disjunctive) abstract interpretation over value-number tokens.

A function is interpreted abstractly: variables and object fields hold tokens, branches split the
abstract state, loops are abstracted by one body summary over havoc-ed variables, helpers of the
library are inlined (virtual dispatch through the inferred types), other calls are opaque.  The result
is, for every abstract path, the sequence of effects (calls, writes, container mutations) on tokens.
No constraint is ever solved and nothing is executed: branch conditions are only matched syntactically
(after normalisation) with conditions already assumed on the same path.
"""
import ast
import time
from .tok import T, Tok, NONE, TRUE, FALSE, const, is_const, cval, show
from .types import DICT_METH, LIST_METH, SET_METH, STREAM_METH, CONT, local_names

MUTATORS = {"append", "add", "remove", "pop", "clear", "extend", "update", "insert", "discard", "setdefault", "sort",
            "reverse", "popleft", "appendleft", "popitem", "difference_update", "intersection_update",
            "symmetric_difference_update", "fill", "resize", "itemset", "partition", "put"}

COPYERS = {"builtins.list", "builtins.tuple", "builtins.sorted", "builtins.set", "builtins.frozenset",
           "builtins.reversed", "collections.deque", "builtins.iter"}

OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
       ast.MatMult: "@", ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>"}
CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is",
       ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}


class Budget(Exception):
    pass


class Ev:
    """One effect on a path."""
    __slots__ = ("kind", "name", "recv", "args", "kw", "res", "node", "func", "stack", "extra")

    def __init__(self, kind, name=None, recv=None, args=(), kw=None, res=None, node=None, func=None, stack=(),
                 extra=None):
        self.kind = kind
        self.name = name
        self.recv = recv
        self.args = tuple(args)
        self.kw = kw or {}
        self.res = res
        self.node = node
        self.func = func
        self.stack = stack
        self.extra = extra

    def key(self):
        k = (self.kind, self.name, self.recv, self.args, tuple(sorted(self.kw.items(), key=lambda x: x[0])), self.res)
        if self.kind == "loop":
            k += (tuple((tuple(e.key() for e in b[0]), b[1]) for b in self.extra),)
        return k

    def loc(self):
        return "%s:%s" % (self.func.mod.relpath if self.func is not None else "?", getattr(self.node, "lineno", 0))

    def arg(self, i, name=None):
        """i-th argument or by parameter name (opaque calls of own functions carry kw by parameter)."""
        if name is not None and name in self.kw:
            return self.kw[name]
        if i is not None and i < len(self.args):
            return self.args[i]
        return None

    def __repr__(self):
        if self.kind == "loop":
            return "loop over %s {%s}" % (show(self.recv) if self.recv is not None else "while",
                                          " | ".join("; ".join(map(repr, b[0])) for b in self.extra))
        s = self.kind
        if self.name is not None:
            s += " " + str(self.name)
        if self.recv is not None:
            s += " on " + show(self.recv)
        if self.args:
            s += " (" + ", ".join(show(a) for a in self.args) + ")"
        if self.kw:
            s += " {" + ", ".join("%s=%s" % (k, show(v)) for k, v in self.kw.items()) + "}"
        if self.res is not None:
            s += " -> " + show(self.res)
        return s


class State:
    __slots__ = ("envs", "heap", "facts", "trace", "epoch", "clock")

    def __init__(self):
        self.envs = {}
        self.heap = {}
        self.facts = {}
        self.trace = None
        self.epoch = {}
        self.clock = T("clk", 0)

    def copy(self):
        s = State.__new__(State)
        s.envs = {k: dict(v) for k, v in self.envs.items()}
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.trace = self.trace
        s.epoch = dict(self.epoch)
        s.clock = self.clock
        return s

    def events(self):
        out = []
        t = self.trace
        while t is not None:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out


def attrs_fields(c):
    """Names of the annotated fields of a class with a generated constructor."""
    if any("attr.s" in ast.unparse(d) or "dataclass" in ast.unparse(d) for d in c.node.decorator_list):
        return [s.target.id for s in c.node.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]
    return []


def indexable(c):
    """May the elements of the unknown collection be named by their positions?"""
    if c.op == "copyof" and c.args[0] in ("builtins.list", "builtins.tuple"):
        return indexable(c.args[1])
    if c.op in ("call", "pcall"):
        return c.args[0] == "itertools.accumulate"
    return c.op in ("attr", "param", "item")


def events_since(trace, start):
    out = []
    t = trace
    while t is not None and t is not start:
        out.append(t[1])
        t = t[0]
    out.reverse()
    return out


class Outcome:
    __slots__ = ("st", "flow", "val")

    def __init__(self, st, flow, val=None):
        self.st = st
        self.flow = flow
        self.val = val

    def events(self):
        return self.st.events()


class Frame:
    __slots__ = ("func", "fid", "depth", "parent", "stack", "selfcls", "mod")

    def __init__(self, func, fid, depth, parent, stack, mod, selfcls=None):
        self.func = func
        self.fid = fid
        self.depth = depth
        self.parent = parent
        self.stack = stack
        self.mod = mod
        self.selfcls = selfcls


class Interp:
    """
    policy(func) -> 'inline' | 'opaque' | None (default)
    relevant(ev) -> keep the event in the trace
    """

    def __init__(self, prog, types, policy=None, relevant=None, on_event=None, max_depth=8, max_states=64,
                 max_steps=400000, track_exc=False, keep_conds=False, carry=False, merge_always=False, inline_gen=None,
                 unroll=True, max_time=60.0):
        self.prog = prog
        self.types = types
        self.policy = policy or (lambda f: None)
        self.relevant = relevant or (lambda e: True)
        self.on_event = on_event
        self.max_depth = max_depth
        self.max_states = max_states
        self.max_steps = max_steps
        self.track_exc = track_exc
        self.keep_conds = keep_conds
        self.carry = carry      # record values carried to the next iteration by each path of a loop body
        self.merge_always = merge_always
        self.inline_gen = inline_gen or (lambda f: None)
        self.unroll = unroll
        self.steps = 0
        self.deadline = time.process_time() + max_time
        self.ttype = {}
        self.phi_info = {}
        self.pending = []
        self.exc_stack = []
        self.yield_handlers = []
        self.fid = 0
        self.dry = 0
        self.loopctx = ()
        self.merged = 0
        self.inlined = set()
        self.opaque_seen = set()
        self.unresolved = []
        self.summaries = {}

    # ------------------------------------------------------------------ entry
    def run(self, func, args=None, selfcls=None, selftok=None, st=None):
        """Interpret the function with symbolic parameters; list of Outcome."""
        st = st or State()
        self.exc_stack = [[]] if self.track_exc else []
        self.pending = []
        self.yield_handlers = []
        fr = self.new_frame(func, 0, None, ())
        env = {}
        ps = func.all_params()
        pos = func.pos_params()
        for i, p in enumerate(ps):
            if args is not None and p in args:
                env[p] = args[p]
                continue
            t = T("param", p)
            env[p] = t
            if i == 0 and func.cls is not None and func.kind in ("method", "property", "setter") and func.parent is None:
                if selftok is not None:
                    env[p] = t = selftok
                cq = selfcls or func.cls.qual
                self.ttype[t] = {("I", cq, 0)}
                fr.selfcls = cq
            elif i == 0 and func.kind == "class":
                env[p] = T("cls", func.cls.qual)
            else:
                at = self.types.var.get(("v", (func.qual if not func.is_lambda else func, None), p), frozenset())
                if at:
                    self.ttype[t] = set(at)
        st.envs[fr.fid] = env
        outs = self.exec_body(func, fr, st)
        res = []
        for o in outs:
            res.append(o)
        if self.track_exc:
            for s in self.exc_stack[0]:
                res.append(Outcome(s, "raise", T("exc", "?")))
        self.exc_stack = []
        return res

    def exec_body(self, func, fr, st):
        """Outcomes with flow return / raise / gen* (unwinding)."""
        self.inlined.add(func.qual)
        if func.is_lambda:
            out = []
            saved, self.pending = self.pending, []
            for s, v in self.ev(func.node.body, st, fr):
                out.append(Outcome(s, "return", v))
            out += self.pending
            self.pending = saved
            return out
        outs = self.block(func.node.body, [st], fr)
        res = []
        for o in outs:
            if o.flow == "next":
                res.append(Outcome(o.st, "return", NONE))
            else:
                res.append(o)
        return res

    def new_frame(self, func, depth, parent, stack, selfcls=None):
        self.fid += 1
        return Frame(func, self.fid, depth, parent, stack, func.mod, selfcls)

    # ------------------------------------------------------------------ events
    def emit(self, st, ev, fr):
        ev.func = fr.func
        ev.stack = fr.stack
        if not self.dry and self.on_event is not None:
            self.on_event(ev, st)
        if self.relevant(ev):
            st.trace = (st.trace, ev)

    def may_raise(self, st):
        if self.exc_stack:
            self.exc_stack[-1].append(st.copy())

    def tick(self, st, fr, node):
        """New clock value after an effect."""
        st.clock = T("clk", id(node), st.clock)

    # ------------------------------------------------------------------ blocks
    def block(self, body, states, fr):
        """Run statements from all states; list of Outcome (flow next for those reaching the end)."""
        done = []
        cur = states
        for stm in body:
            nxt = []
            for s in cur:
                for o in self.stmt(stm, s, fr):
                    if o.flow == "next":
                        nxt.append(o.st)
                    else:
                        done.append(o)
            cur = self.reduce(nxt, stm)
            if not cur:
                break
        return [Outcome(s, "next") for s in cur] + done

    def reduce(self, states, node):
        if len(states) <= 1:
            return states
        limit = 1 if self.merge_always else self.max_states
        if len(states) <= min(limit, 4) and not self.merge_always:
            return states
        # merge the states with equal trace
        groups = {}
        for s in states:
            k = tuple(e.key() for e in s.events()) if not self.merge_always else 0
            groups.setdefault(k, []).append(s)
        out = []
        if len(states) <= limit:
            # only drop exact duplicates
            for k, g in groups.items():
                uniq = {}
                for s in g:
                    kk = (tuple(sorted(((f, n, v.h) for f, e in s.envs.items() for n, v in e.items()))),
                          tuple(sorted((b.h, str(f), v.h) for (b, f), v in s.heap.items())))
                    if kk in uniq:
                        u = uniq[kk]
                        u.facts = {c: v for c, v in u.facts.items() if s.facts.get(c) == v}
                    else:
                        uniq[kk] = s
                out += uniq.values()
            return out
        for k, g in groups.items():
            out.append(self.join(g, node))
        if len(out) > 8 * self.max_states:
            raise Budget("too many abstract states")
        return out

    def join(self, states, node):
        if len(states) == 1:
            return states[0]
        self.merged += 1
        r = states[0].copy()
        for fid in list(r.envs):
            keys = set()
            for s in states:
                keys |= set(s.envs.get(fid, ()))
            env = r.envs[fid]
            for n in keys:
                vals = []
                for s in states:
                    v = s.envs.get(fid, {}).get(n, T("unbound", n))
                    if v not in vals:
                        vals.append(v)
                if len(vals) == 1:
                    env[n] = vals[0]
                else:
                    env[n] = self.phi(vals, node, n)
        hk = set()
        for s in states:
            hk |= set(s.heap)
        heap = {}
        for k in hk:
            vals = []
            for s in states:
                v = s.heap.get(k)
                if v is None:
                    v = self.default_heap(s, k)
                if v not in vals:
                    vals.append(v)
            heap[k] = vals[0] if len(vals) == 1 else self.phi(vals, node, str(k[1]))
        r.heap = heap
        r.facts = {c: v for c, v in r.facts.items() if all(s.facts.get(c) == v for s in states)}
        ek = set()
        for s in states:
            ek |= set(s.epoch)
        for k in ek:
            vals = {s.epoch.get(k) for s in states}
            if len(vals) > 1:
                r.epoch[k] = T("clk", id(node), k, "join")
            else:
                r.epoch[k] = states[0].epoch.get(k)
        if len({s.clock for s in states}) > 1:
            r.clock = T("clk", id(node), "join")
        return r

    def default_heap(self, s, k):
        base, f = k
        if isinstance(f, str) and not f.startswith("#"):
            return T("attr", base, f, s.epoch.get(f))
        if f == "#ver":
            return self.content_ver(s, base, raw=True)
        return T("initial", base, str(f))

    def phi(self, vals, node, name):
        flat = []
        for v in vals:
            if v.op == "phi":
                for x in self.phi_info.get(v, [v]):
                    if x not in flat:
                        flat.append(x)
            elif v not in flat:
                flat.append(v)
        if len(flat) == 1:
            return flat[0]
        t = T("phi", id(node), tuple(sorted(x.h for x in flat)), name)
        self.phi_info[t] = flat
        ty = set()
        for x in flat:
            ty |= self.ttype.get(x, set())
        if ty:
            self.ttype[t] = ty
        return t

    # ------------------------------------------------------------------ statements
    def stmt(self, node, st, fr):
        self.steps += 1
        if self.steps > self.max_steps or (self.steps & 255) == 0 and time.process_time() > self.deadline:
            raise Budget("step limit")
        saved, self.pending = self.pending, []
        try:
            outs = self._stmt(node, st, fr)
            outs = list(outs) + self.pending
        finally:
            self.pending = saved
        return outs

    def _stmt(self, node, st, fr):
        m = getattr(self, "s_" + type(node).__name__, None)
        if m is None:
            return [Outcome(st, "next")]
        return m(node, st, fr)

    def s_Pass(self, node, st, fr):
        return [Outcome(st, "next")]

    def s_Expr(self, node, st, fr):
        if isinstance(node.value, ast.Constant):
            return [Outcome(st, "next")]
        return [Outcome(s, "next") for s, v in self.ev(node.value, st, fr)]

    def s_Assign(self, node, st, fr):
        outs = []
        for s, v in self.ev(node.value, st, fr):
            ss = [s]
            for t in node.targets:
                nxt = []
                for s2 in ss:
                    nxt += self.assign(t, v, s2, fr, node)
                ss = nxt
            outs += [Outcome(x, "next") for x in ss]
        return outs

    def s_AnnAssign(self, node, st, fr):
        if node.value is None:
            return [Outcome(st, "next")]
        outs = []
        for s, v in self.ev(node.value, st, fr):
            outs += [Outcome(x, "next") for x in self.assign(node.target, v, s, fr, node)]
        return outs

    def s_AugAssign(self, node, st, fr):
        outs = []
        op = OPS.get(type(node.op), "?")
        t = node.target
        if isinstance(t, ast.Name):
            for s, v in self.ev(node.value, st, fr):
                old = self.read_name(t.id, s, fr, t)
                at = self.atoms_of(old, t)
                if old.op == "op" and old.args[0] in ("-", "/", "**", "@"):
                    # a list has no such operation
                    at = {a for a in at if a[0] not in ("ls", "dc")}
                new = self.binop(op, old, v, s, t)
                if any(a[0] in ("np",) + CONT for a in at) or self.is_arrayish(old):
                    self.emit(s, Ev("aug", op, recv=old, args=(v,), res=new, node=node, extra="name"), fr)
                    self.bump(s, old, node)
                    self.tick(s, fr, node)
                    if any(a[0] in ("ls", "st", "dc") for a in at):
                        new = old
                    else:
                        # in place update of an array keeps the identity
                        nt = T("aug", op, old, v, s.clock)
                        self.ttype[nt] = set(at)
                        new = nt
                env = self.env_of(t.id, s, fr)
                env[t.id] = new
                outs.append(Outcome(s, "next"))
            return outs
        if isinstance(t, ast.Attribute):
            for s, b in self.ev(t.value, st, fr):
                for s2, old in self.read_attr(b, t.attr, s, fr, t):
                    for s3, v in self.ev(node.value, s2, fr):
                        new = self.binop(op, old, v, s3, t)
                        at = self.atoms_of(old, t)
                        if any(a[0] in ("np",) + CONT for a in at):
                            self.emit(s3, Ev("aug", op, recv=old, args=(v,), res=new, node=node, extra="attr"), fr)
                            self.bump(s3, old, node)
                        self.write_attr(b, t.attr, new, s3, fr, node, aug=op)
                        outs.append(Outcome(s3, "next"))
            return outs
        if isinstance(t, ast.Subscript):
            for s, b in self.ev(t.value, st, fr):
                for s2, k in self.ev_slice(t.slice, s, fr):
                    for s3, v in self.ev(node.value, s2, fr):
                        old = self.read_item(b, k, s3, fr, t)
                        new = self.binop(op, old, v, s3, t)
                        self.write_item(b, k, new, s3, fr, node, aug=op)
                        outs.append(Outcome(s3, "next"))
            return outs
        return [Outcome(st, "next")]

    def is_arrayish(self, t):
        return t.op in ("call",) and str(t.args[0]).startswith("numpy.")

    def s_Return(self, node, st, fr):
        if node.value is None:
            return [Outcome(st, "return", NONE)]
        return [Outcome(s, "return", v) for s, v in self.ev(node.value, st, fr)]

    def s_Raise(self, node, st, fr):
        if node.exc is None:
            self.emit(st, Ev("raise", None, node=node), fr)
            return [Outcome(st, "raise", T("exc", "reraise"))]
        outs = []
        for s, v in self.ev(node.exc, st, fr):
            self.emit(s, Ev("raise", None, args=(v,), node=node), fr)
            outs.append(Outcome(s, "raise", v))
        return outs

    def s_Assert(self, node, st, fr):
        outs = []
        for s, v in self.truth(node.test, st, fr):
            if v:
                self.emit(s, Ev("assert", None, node=node), fr)
                outs.append(Outcome(s, "next"))
            elif isinstance(node.test, ast.Constant) or self.exc_stack:
                outs.append(Outcome(s, "raise", T("exc", "AssertionError")))
        return outs

    def s_Delete(self, node, st, fr):
        ss = [st]
        for t in node.targets:
            nxt = []
            for s in ss:
                if isinstance(t, ast.Name):
                    self.env_of(t.id, s, fr).pop(t.id, None)
                    nxt.append(s)
                elif isinstance(t, ast.Attribute):
                    for s2, b in self.ev(t.value, s, fr):
                        self.emit(s2, Ev("delattr", t.attr, recv=b, node=node), fr)
                        s2.heap.pop((b, t.attr), None)
                        s2.epoch[t.attr] = s2.clock
                        self.tick(s2, fr, node)
                        nxt.append(s2)
                elif isinstance(t, ast.Subscript):
                    for s2, b in self.ev(t.value, s, fr):
                        for s3, k in self.ev_slice(t.slice, s2, fr):
                            self.emit(s3, Ev("delitem", None, recv=b, args=(k,), node=node), fr)
                            self.may_raise(s3)
                            s3.heap.pop((b, ("#i", k)), None)
                            self.bump(s3, b, node)
                            self.tick(s3, fr, node)
                            nxt.append(s3)
                else:
                    nxt.append(s)
            ss = nxt
        return [Outcome(s, "next") for s in ss]

    def s_If(self, node, st, fr):
        outs = []
        t, f = [], []
        for s, v in self.truth(node.test, st, fr):
            (t if v else f).append(s)
        t = self.reduce(t, node)
        f = self.reduce(f, node)
        if t:
            outs += self.block(node.body, t, fr)
        if f:
            outs += self.block(node.orelse, f, fr)
        nxt = [o.st for o in outs if o.flow == "next"]
        rest = [o for o in outs if o.flow != "next"]
        return [Outcome(s, "next") for s in self.reduce(nxt, node)] + rest

    def s_Global(self, node, st, fr):
        return [Outcome(st, "next")]

    s_Nonlocal = s_Global

    def s_Import(self, node, st, fr):
        env = st.envs[fr.fid]
        for k, e in self.prog.import_bindings(fr.mod, node).items():
            env[k] = self.entity_tok(e)
        return [Outcome(st, "next")]

    s_ImportFrom = s_Import

    def s_FunctionDef(self, node, st, fr):
        f = self.prog.node_func.get(node)
        st.envs[fr.fid][node.name] = T("closure", f.qual, fr.fid) if f is not None else T("unknown", id(node))
        return [Outcome(st, "next")]

    def s_ClassDef(self, node, st, fr):
        return [Outcome(st, "next")]

    def s_Break(self, node, st, fr):
        return [Outcome(st, "break")]

    def s_Continue(self, node, st, fr):
        return [Outcome(st, "continue")]

    # ------------------------------------------------------------------ loops
    def s_For(self, node, st, fr):
        outs = []
        for s, coll in self.ev(node.iter, st, fr):
            outs += self.for_over(node, coll, s, fr)
        return outs

    def known_items(self, coll, st, ordered=False):
        """Exact element tokens of a collection if statically known (ordered: also their order)."""
        if coll.op == "tuple":
            return list(coll.args)
        if coll.op == "list":
            if (coll, "#ver") in st.heap:
                it = st.heap.get((coll, "#items"))
                return list(it.args) if it is not None and it.op == "items" else None
            return list(coll.args[1:])
        if coll.op == "copyof":
            if (coll, "#ver") in st.heap:
                return None
            it = self.known_items(coll.args[1], st, ordered)
            if it is None:
                return None
            if coll.args[0] == "builtins.reversed":
                return it[::-1]
            if ordered and len(it) > 1 and coll.args[0] in ("builtins.sorted", "builtins.set", "builtins.frozenset"):
                return None
            return it
        if coll.op == "pcall" and coll.args[0] == "builtins.range":
            a = [cval(x) for x in coll.args[1:] if is_const(x)]
            if len(a) == len(coll.args) - 1 and all(isinstance(x, int) for x in a):
                r = range(*a)
                if len(r) <= 8:
                    return [const(i) for i in r]
            return None
        if coll.op == "enum":
            it = self.known_items(coll.args[0], st, ordered)
            if it is None:
                return None
            return [T("tuple", const(i), x) for i, x in enumerate(it)]
        if coll.op == "zip":
            its = [self.known_items(c, st, ordered) for c in coll.args]
            if all(i is None for i in its) or any(i is None and (not indexable(c) or (c, "#ver") in st.heap)
                                                  for i, c in zip(its, coll.args)):
                return None
            n = min(len(i) for i in its if i is not None)
            its = [i if i is not None else [T("item", c, const(j)) for j in range(n)] for i, c in zip(its, coll.args)]
            return [T("tuple", *x) for x in zip(*its)]
        if coll.op == "const" and isinstance(cval(coll), (tuple, list, str)):
            return [const(x) for x in cval(coll)]
        return None

    def for_over(self, node, coll, st, fr):
        gens = self.gen_targets(coll)
        if gens is not None:
            f, gargs = gens
            pol = self.inline_gen(f)
            eff = self.effects(f)
            if (pol is True or (pol is None and eff)) and f.qual not in [x.qual for x in fr.stack] and fr.depth < self.max_depth:
                return self.for_generator(node, f, gargs, st, fr)
        items = self.known_items(coll, st) if self.unroll else None
        if items is not None and len(items) <= 8:
            cur = [st]
            done = []
            for it in items:
                nxt = []
                for s in cur:
                    for s2 in self.assign(node.target, it, s, fr, node):
                        for o in self.block(node.body, [s2], fr):
                            if o.flow in ("next", "continue"):
                                nxt.append(o.st)
                            elif o.flow == "break":
                                done.append(Outcome(o.st, "next"))
                            else:
                                done.append(o)
                cur = self.reduce(nxt, node)
            if node.orelse:
                return done + self.block(node.orelse, cur, fr)
            return done + [Outcome(s, "next") for s in cur]
        return self.abstract_loop(node, st, fr, coll=coll)

    def s_While(self, node, st, fr):
        return self.abstract_loop(node, st, fr, coll=None)

    def loop_once(self, node, st, fr, coll):
        """Body outcomes from the (already havoc-ed) header state; (outcomes, exit states, starts)."""
        exits = []
        if coll is not None:
            elem = self.elem_of(coll, st, fr, node)
            starts = self.assign(node.target, elem, st.copy(), fr, node)
            exits.append(st)
        else:
            starts = []
            for s, v in self.truth(node.test, st.copy(), fr):
                if v:
                    starts.append(s)
                else:
                    exits.append(s)
        outs = self.block(node.body, starts, fr) if starts else []
        return outs, exits

    def abstract_loop(self, node, st, fr, coll):
        # 1. discover what the body modifies
        self.dry += 1
        savep, self.pending = self.pending, []
        save_exc = self.exc_stack
        self.exc_stack = [[] for _ in save_exc] if save_exc else []
        changed = {}
        eff = False
        head = st.copy()
        mods = set()
        try:
            for rounds in range(2):
                probe = self.havoc(head.copy(), mods, node, fr)
                base = probe.copy()
                outs, exits = self.loop_once(node, probe, fr, coll)
                new = set()
                for o in list(outs) + list(self.pending):
                    self.diff(base, o.st, new, changed)
                self.pending = []
                if new <= mods:
                    break
                mods |= new
        finally:
            self.dry -= 1
            self.pending = savep
            self.exc_stack = save_exc
        # 2. run the body from the havoc-ed header
        head = self.havoc(head, mods, node, fr, changed)
        start_trace = head.trace
        pre = head.copy()
        pre.trace = None
        savep, self.pending = self.pending, []
        nexc = len(self.exc_stack[-1]) if self.exc_stack else 0
        outs, exits = self.loop_once(node, pre, fr, coll)
        outs = list(outs) + self.pending
        self.pending = savep
        if self.carry:
            for o in outs:
                if o.flow not in ("next", "continue", "break"):
                    continue
                args = []
                for m in sorted((m for m in mods if m[0] == "env"), key=str):
                    was, now = head.envs.get(m[1], {}).get(m[2]), o.st.envs.get(m[1], {}).get(m[2])
                    if was is not None and now is not None and was is not now:
                        args += [was, now]
                cev = Ev("carry", "", args=tuple(args), node=node)
                cev.func, cev.stack = fr.func, fr.stack
                o.st.trace = (o.st.trace, cev)
        bodies = []
        seen = set()
        results = []
        for o in outs:
            evs = o.st.events()
            key = (tuple(e.key() for e in evs), o.flow)
            if key not in seen:
                seen.add(key)
                bodies.append((evs, o.flow))
        lev = Ev("loop", "for" if coll is not None else "while", recv=coll, node=node, extra=bodies)
        has = any(b[0] for b in bodies)

        def attach(s):
            tail = s.events()
            s.trace = start_trace
            if has:
                lev.func = fr.func
                lev.stack = fr.stack
                s.trace = (s.trace, lev)
            for e in tail:
                s.trace = (s.trace, e)
            return s
        if has:
            lev.func = fr.func
            lev.stack = fr.stack
        if self.exc_stack:
            # exceptional states created inside of the body
            for s in self.exc_stack[-1][nexc:]:
                attach(s)
        final = []
        for s in exits:
            # loop finished normally
            s = s.copy()
            final.append(attach(s))
        nxt = final
        if node.orelse:
            res = self.block(node.orelse, nxt, fr)
        else:
            res = [Outcome(s, "next") for s in nxt]
        for o in outs:
            if o.flow == "break":
                res.append(Outcome(attach(o.st), "next"))
            elif o.flow in ("next", "continue"):
                pass
            else:
                res.append(Outcome(attach(o.st), o.flow, o.val))
        return res

    def diff(self, a, b, out, changed):
        for fid, env in b.envs.items():
            old = a.envs.get(fid)
            if old is None:
                continue
            for n, v in env.items():
                if old.get(n) is not v:
                    out.add(("env", fid, n))
                    changed.setdefault(("env", fid, n), set()).add(v)
        for k, v in b.heap.items():
            if a.heap.get(k) is not v:
                out.add(("heap", k))
                changed.setdefault(("heap", k), set()).add(v)
        for k in a.heap:
            if k not in b.heap:
                out.add(("heap", k))
        for k, v in b.epoch.items():
            if a.epoch.get(k) is not v:
                out.add(("epoch", k))

    def havoc(self, st, mods, node, fr, changed=None):
        for m in mods:
            if m[0] == "env":
                env = st.envs.get(m[1])
                if env is None:
                    continue
                old = env.get(m[2])
                if old is None:
                    # assigned only inside of the loop
                    t = T("lphi", id(node), self.loopctx, m[2])
                    env[m[2]] = t
                    if changed:
                        self.phi_info[t] = [v for v in changed.get(m, ()) if v is not t]
                    continue
                t = T("lphi", id(node), old, m[2])
                env[m[2]] = t
                if changed:
                    self.phi_info[t] = [old] + [v for v in changed.get(m, ()) if v is not t and v is not old]
                    ty = set()
                    for x in self.phi_info[t]:
                        ty |= self.ttype.get(x, set())
                    if ty:
                        self.ttype[t] = ty
            elif m[0] == "heap":
                k = m[1]
                old = st.heap.get(k)
                if old is None:
                    old = self.default_heap(st, k)
                t = T("lphi", id(node), old, str(k[1]), k[0])
                st.heap[k] = t
                if changed:
                    self.phi_info[t] = [old] + [v for v in changed.get(m, ()) if v is not t and v is not old]
                    ty = set(self.ttype.get(old, set()))
                    if ty:
                        self.ttype[t] = ty
            elif m[0] == "epoch":
                st.epoch[m[1]] = T("clk", id(node), m[1], st.clock)
        if mods:
            st.clock = T("clk", id(node), "loop", st.clock)
        return st

    # generators -----------------------------------------------------------
    def gen_targets(self, coll):
        if coll.op == "gen":
            f = self.prog.funcs.get(coll.args[0])
            if f is not None:
                return f, coll
        return None

    def for_generator(self, node, f, gtok, st, fr):
        gfr = self.new_frame(f, fr.depth + 1, None, fr.stack + (f,))
        env = {}
        for kv in gtok.args[2:]:
            env[kv.args[0]] = kv.args[1]
        st.envs[gfr.fid] = env

        def handler(s, val):
            """Run consumer body at the yield; returns (continuing states, unwinding outcomes)."""
            cont, unwind = [], []
            top = self.yield_handlers.pop()
            try:
                for s2 in self.assign(node.target, val, s, fr, node):
                    for o in self.block(node.body, [s2], fr):
                        if o.flow in ("next", "continue"):
                            cont.append(o.st)
                        else:
                            unwind.append(Outcome(o.st, "gen:" + o.flow, o.val))
            finally:
                self.yield_handlers.append(top)
            return cont, unwind
        self.yield_handlers.append(handler)
        try:
            outs = self.exec_body(f, gfr, st)
        finally:
            self.yield_handlers.pop()
        res = []
        for o in outs:
            o.st.envs.pop(gfr.fid, None)
            if o.flow == "return":
                if node.orelse:
                    res += self.block(node.orelse, [o.st], fr)
                else:
                    res.append(Outcome(o.st, "next"))
            elif o.flow == "gen:break":
                res.append(Outcome(o.st, "next"))
            elif o.flow.startswith("gen:"):
                res.append(Outcome(o.st, o.flow[4:], o.val))
            else:
                res.append(o)
        return res

    # ------------------------------------------------------------------ try / with
    def s_Try(self, node, st, fr):
        trace0 = st.trace
        self.exc_stack.append([])
        outs = self.block(node.body, [st], fr)
        snaps = self.exc_stack.pop()
        normal = [o for o in outs if o.flow == "next"]
        raised = [o for o in outs if o.flow == "raise"]
        other = [o for o in outs if o.flow not in ("next", "raise")]
        excs = self.dedupe_states(snaps + [o.st for o in raised])
        res = []
        # the handlers and else part run inside of the scope of finally
        fin_exc = None
        if node.finalbody:
            self.exc_stack.append([])
        if normal:
            if node.orelse:
                res += self.block(node.orelse, [o.st for o in normal], fr)
            else:
                res += normal
        res += other
        if node.handlers:
            catch_all = False
            for h in node.handlers:
                names = self.handler_types(h, fr)
                hs = [s.copy() for s in excs]
                for s in hs:
                    self.emit(s, Ev("except", ",".join(names), node=h), fr)
                    if h.name:
                        s.envs[fr.fid][h.name] = T("exc", h.name)
                res += self.block(h.body, hs, fr) if hs else []
                if "*" in names:
                    catch_all = True
            if not catch_all:
                for s in excs:
                    res.append(Outcome(s, "raise", T("exc", "propagated")))
        else:
            for s in excs:
                res.append(Outcome(s, "raise", T("exc", "propagated")))
        if node.finalbody:
            snaps2 = self.exc_stack.pop()
            for s in self.dedupe_states(snaps2):
                res.append(Outcome(s, "raise", T("exc", "propagated")))
            out = []
            for o in res:
                for o2 in self.block(node.finalbody, [o.st], fr):
                    if o2.flow == "next":
                        out.append(Outcome(o2.st, o.flow, o.val))
                    else:
                        out.append(o2)
            res = out
        return res

    def dedupe_states(self, states):
        seen, out = {}, []
        for s in states:
            k = tuple(e.key() for e in s.events())
            kk = (k, tuple(sorted((b.h, str(f), v.h) for (b, f), v in s.heap.items())),
                  tuple(sorted((fid, n, v.h) for fid, e in s.envs.items() for n, v in e.items())))
            if kk not in seen:
                seen[kk] = s
                out.append(s)
        if len(out) > 4 * self.max_states:
            raise Budget("too many exceptional states")
        return out

    def handler_types(self, h, fr):
        if h.type is None:
            return ["*"]
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for t in ts:
            e = self.prog.resolve_expr(fr.mod, t)
            n = e[1] if e is not None and e[0] == "ext" else ast.unparse(t)
            n = str(n).replace("builtins.", "")
            if n in ("Exception", "BaseException"):
                n = "*"
            out.append(n)
        return out

    def s_With(self, node, st, fr):
        return self.with_items(node, 0, st, fr)

    def with_items(self, node, i, st, fr):
        if i >= len(node.items):
            return self.block(node.body, [st], fr)
        item = node.items[i]
        res = []
        for s, ctx in self.ev(item.context_expr, st, fr):
            res += self.with_one(node, i, item, ctx, s, fr)
        return res

    def with_one(self, node, i, item, ctx, st, fr):
        # generator based context manager
        if ctx.op == "gen":
            f = self.prog.funcs.get(ctx.args[0])
            gfr = self.new_frame(f, fr.depth + 1, None, fr.stack + (f,))
            env = {}
            for kv in ctx.args[2:]:
                env[kv.args[0]] = kv.args[1]
            st.envs[gfr.fid] = env

            def handler(s, val):
                cont, unwind = [], []
                top = self.yield_handlers.pop()
                try:
                    ss = [s]
                    if item.optional_vars is not None:
                        ss = self.assign(item.optional_vars, val, s, fr, node)
                    for s2 in ss:
                        for o in self.with_items(node, i + 1, s2, fr):
                            if o.flow == "next":
                                cont.append(o.st)
                            elif o.flow == "raise":
                                unwind.append(o)
                            else:
                                # return/break from the body: generator is resumed normally, then the flow continues
                                o.st.envs[("flow", gfr.fid)] = {"flow": const(o.flow), "val": o.val or NONE}
                                cont.append(o.st)
                finally:
                    self.yield_handlers.append(top)
                return cont, unwind
            self.yield_handlers.append(handler)
            try:
                outs = self.exec_body(f, gfr, st)
            finally:
                self.yield_handlers.pop()
            res = []
            for o in outs:
                o.st.envs.pop(gfr.fid, None)
                fl = o.st.envs.pop(("flow", gfr.fid), None)
                if o.flow == "return":
                    if fl is not None:
                        res.append(Outcome(o.st, cval(fl["flow"]), fl["val"]))
                    else:
                        res.append(Outcome(o.st, "next"))
                else:
                    res.append(o)
            return res
        enter = self.method_of(ctx, "__enter__", item.context_expr)
        exit_ = self.method_of(ctx, "__exit__", item.context_expr)
        if enter is None or exit_ is None:
            self.emit(st, Ev("with", None, recv=ctx, node=node), fr)
            ss = [st]
            if item.optional_vars is not None:
                ss = self.assign(item.optional_vars, ctx, st, fr, node)
            res = []
            for s in ss:
                res += self.with_items(node, i + 1, s, fr)
            return res
        res = []
        for s, v in self.call_user(enter, [ctx], {}, s_node(item.context_expr), st, fr):
            ss = [s]
            if item.optional_vars is not None:
                ss = self.assign(item.optional_vars, v, s, fr, node)
            for s2 in ss:
                self.exc_stack.append([])
                outs = self.with_items(node, i + 1, s2, fr)
                snaps = self.exc_stack.pop()
                raised = self.dedupe_states(snaps + [o.st for o in outs if o.flow == "raise"])
                for o in outs:
                    if o.flow == "raise":
                        continue
                    for s3, r in self.call_user(exit_, [ctx, NONE, NONE, NONE], {}, s_node(item.context_expr), o.st, fr):
                        res.append(Outcome(s3, o.flow, o.val))
                for s3 in raised:
                    ex = [T("exc", "type"), T("exc", "value"), T("exc", "tb")]
                    for s4, r in self.call_user(exit_, [ctx] + ex, {}, s_node(item.context_expr), s3, fr):
                        d = self.decide_tok(r, s4)
                        if d is not True:
                            res.append(Outcome(s4, "raise", T("exc", "propagated")))
                        if d is not False:
                            res.append(Outcome(s4.copy(), "next"))
        return res

    # ------------------------------------------------------------------ assignment
    def env_of(self, name, st, fr):
        f = fr.func
        if not hasattr(f, "_locals"):
            f._locals = local_names(f)
        if name in f._locals or fr.parent is None:
            return st.envs.setdefault(fr.fid, {})
        p = fr.parent
        fid = p
        while fid is not None:
            e = st.envs.get(fid)
            if e is not None and name in e:
                return e
            fid = None
        return st.envs.setdefault(fr.fid, {})

    def assign(self, target, val, st, fr, node):
        if isinstance(target, ast.Name):
            if fr.func is not None:
                if not hasattr(fr.func, "_locals"):
                    fr.func._locals = local_names(fr.func)
                if target.id not in fr.func._locals and not self.closure_has(target.id, st, fr):
                    # global variable
                    g = T("glob", fr.mod.name, target.id)
                    self.emit(st, Ev("write", target.id, recv=T("mod", fr.mod.name), args=(val,), node=node), fr)
                    st.heap[(T("mod", fr.mod.name), target.id)] = val
                    self.tick(st, fr, node)
                    return [st]
            self.env_of(target.id, st, fr)[target.id] = val
            at = self.types.atoms(target)
            if at and val not in self.ttype:
                self.ttype[val] = set(at)
            return [st]
        if isinstance(target, (ast.Tuple, ast.List)):
            return self.unpack(target.elts, val, st, fr, node)
        if isinstance(target, ast.Starred):
            return self.assign(target.value, val, st, fr, node)
        if isinstance(target, ast.Attribute):
            out = []
            for s, b in self.ev(target.value, st, fr):
                out += self.write_attr(b, target.attr, val, s, fr, node, tnode=target)
            return out
        if isinstance(target, ast.Subscript):
            out = []
            for s, b in self.ev(target.value, st, fr):
                for s2, k in self.ev_slice(target.slice, s, fr):
                    self.write_item(b, k, val, s2, fr, node)
                    out.append(s2)
            return out
        return [st]

    def closure_has(self, name, st, fr):
        return fr.parent is not None and name in st.envs.get(fr.parent, {})

    def unpack(self, elts, val, st, fr, node):
        items = self.known_items(val, st, True)
        ss = [st]
        n = len(elts)
        star = next((i for i, e in enumerate(elts) if isinstance(e, ast.Starred)), None)
        for i, e in enumerate(elts):
            if items is not None and star is None and len(items) == n:
                v = items[i]
            elif items is not None and star is not None and len(items) >= n - 1:
                if i < star:
                    v = items[i]
                elif i == star:
                    v = T("list", id(e), *items[star:len(items) - (n - 1 - star)])
                else:
                    v = items[len(items) - (n - i)]
            elif star is not None and i >= star:
                v = T("rest", val, i)
            else:
                v = self.unpack_item(val, i, ss[0], fr, node, n)
            nxt = []
            for s in ss:
                nxt += self.assign(e, v, s, fr, node)
            ss = nxt
        return ss

    def unpack_item(self, val, i, st, fr, node, n):
        if val.op in ("comp",) and not val.args[4]:
            # sequence mapped from another sequence: element wise
            inner = self.comp_item(val, const(i))
            if inner is not None:
                return inner
        return self.read_item(val, const(i), st, fr, None)

    def comp_item(self, comp, idx):
        """i-th element of [f(x) for x in coll]."""
        kind, elt, coll, elem = comp.args[0], comp.args[1], comp.args[2], comp.args[3]
        if kind in ("ls", "gen") and elem is not None:
            it = T("item", coll, idx)
            if elem in self.ttype:
                self.ttype.setdefault(it, set(self.ttype[elem]))
            m = {elem: it}
            if coll.op == "zip" and elem.op == "tuple" and len(elem.args) == len(coll.args):
                for x, c in zip(elem.args, coll.args):
                    y = T("item", c, idx)
                    if x in self.ttype:
                        self.ttype.setdefault(y, set(self.ttype[x]))
                    m.setdefault(x, y)
            r = subst(elt, m)
            if elt in self.ttype:
                self.ttype.setdefault(r, set(self.ttype[elt]))
            return r
        return None

    def write_attr(self, base, field, val, st, fr, node, aug=None, tnode=None):
        setter = None
        for c in self.classes_of(base, tnode.value if tnode is not None else None):
            setter = self.prog.find_setter(c, field)
            if setter is not None:
                break
        if setter is not None and self.policy(setter) != "opaque":
            return [s for s, v in self.call_user([setter], [base, val], {}, node, st, fr)]
        self.emit(st, Ev("write", field, recv=base, args=(val,), node=node, extra=aug), fr)
        st.heap[(base, field)] = val
        self.tick(st, fr, node)
        if tnode is not None:
            at = self.types.atoms(tnode)
            if at and val not in self.ttype:
                self.ttype[val] = set(at)
        return [st]

    def write_item(self, base, key, val, st, fr, node, aug=None):
        self.emit(st, Ev("setitem", None, recv=base, args=(key, val), node=node, extra=aug), fr)
        drop = []
        for (b, f) in st.heap:
            if b is base and isinstance(f, tuple) and f[0] == "#i" and f[1] is not key:
                if is_const(f[1]) and is_const(key):
                    continue
                if self.is_flip(f[1], key):
                    continue
                drop.append((b, f))
        for k in drop:
            del st.heap[k]
            st.heap[(base, ("#iv",))] = st.clock
        st.heap[(base, ("#i", key))] = val
        self.bump(st, base, node, keep_items=True)
        self.tick(st, fr, node)

    def is_flip(self, a, b):
        return a is T("op", "-", const(1), b) or b is T("op", "-", const(1), a)

    def bump(self, st, base, node, keep_items=False):
        """Content of the container changed."""
        st.heap[(base, "#ver")] = T("clk", id(node), st.clock, "v")
        st.heap.pop((base, "#items"), None)
        if not keep_items:
            for k in [k for k in st.heap if k[0] is base and isinstance(k[1], tuple)]:
                del st.heap[k]
            st.heap[(base, ("#iv",))] = st.clock

    def content_ver(self, st, base, raw=False):
        v = st.heap.get((base, "#ver"))
        if v is not None:
            return v
        if base.op == "attr":
            e = st.epoch.get("#" + base.args[1])
            if e is not None:
                return e
        if base.op in ("copyof", "items", "values", "keys", "enum", "zip"):
            vs = [self.content_ver(st, x) for x in base.args if isinstance(x, Tok)]
            vs = [x for x in vs if x is not T("v0")]
            if vs:
                return T("ver", *vs)
        return T("v0")

    # ------------------------------------------------------------------ truth
    def truth(self, e, st, fr):
        """Evaluate as condition: list of (state, bool) with assumptions recorded."""
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            cur = [st]
            out = []
            for i, x in enumerate(e.values):
                nxt = []
                for s in cur:
                    for s2, v in self.truth(x, s, fr):
                        if v != isand:
                            out.append((s2, v))
                        elif i == len(e.values) - 1:
                            out.append((s2, v))
                        else:
                            nxt.append(s2)
                cur = nxt
            return out
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(s, not v) for s, v in self.truth(e.operand, st, fr)]
        if isinstance(e, ast.Compare) and len(e.ops) > 1:
            # chain a < b < c
            out = []
            for s, vals in self.ev_many([e.left] + e.comparators, st, fr):
                conds = [self.compare(CMP[type(o)], a, b, s) for o, a, b in zip(e.ops, vals, vals[1:])]
                cur = [s]
                for i, c in enumerate(conds):
                    nxt = []
                    for s2 in cur:
                        for s3, v in self.split(c, s2, fr, e):
                            if not v:
                                out.append((s3, False))
                            elif i == len(conds) - 1:
                                out.append((s3, True))
                            else:
                                nxt.append(s3)
                    cur = nxt
            return out
        out = []
        for s, v in self.ev(e, st, fr):
            out += self.split(v, s, fr, e)
        return out

    def split(self, tok, st, fr, node):
        d = self.decide_tok(tok, st, node)
        if d is not None:
            return [(st, d)]
        c, pol = self.canon(tok, st, node)
        out = []
        for v in (True, False):
            s = st.copy()
            s.facts[c] = (v == pol)
            self.derive_facts(s, c, v == pol)
            if self.keep_conds:
                self.emit(s, Ev("cond", v == pol, recv=c, node=node), fr)
            elif self.on_event is not None and v:
                if not self.dry:
                    self.on_event(Ev("cond", None, recv=c, node=node, func=fr.func, stack=fr.stack), s)
            out.append((s, v))
        return out

    def derive_facts(self, st, c, v):
        # x is None  =>  not truth(x)
        if c.op == "op" and c.args[0] == "is" and c.args[2] is NONE and v:
            st.facts[c.args[1]] = False

    def canon(self, tok, st, node=None):
        """Canonical condition and polarity."""
        pol = True
        while True:
            if tok.op == "op" and tok.args[0] == "not":
                pol = not pol
                tok = tok.args[1]
                continue
            if tok.op == "pcall" and tok.args[0] == "builtins.bool":
                tok = tok.args[1]
                continue
            break
        if tok.op == "op" and len(tok.args) == 3:
            o, a, b = tok.args
            if o == "!=":
                o, pol = "==", not pol
            elif o == "is not":
                o, pol = "is", not pol
            elif o == "not in":
                o, pol = "in", not pol
            if o == ">":
                o, a, b = "<", b, a
            elif o == ">=":
                o, pol = "<", not pol
            elif o == "<=":
                o, a, b, pol = "<", b, a, not pol
            if o in ("==", "is") and a is NONE:
                a, b = b, a
            if o == "==" and b is NONE:
                o = "is"
            # emptiness
            for x, y, sw in ((a, b, False), (b, a, True)):
                if x.op == "op" and x.args[0] == "len" and is_const(y):
                    ln = x
                    k = cval(y)
                    if o == "==" and k == 0:
                        return T("nonempty", ln.args[1], ln.args[2]), not pol
                    if o == "<" and not sw and k == 1:     # len < 1
                        return T("nonempty", ln.args[1], ln.args[2]), not pol
                    if o == "<" and sw and k == 0:        # 0 < len
                        return T("nonempty", ln.args[1], ln.args[2]), pol
            if o == "==" and b.h < a.h:
                a, b = b, a
            if o == "is" and b is not NONE and b.h < a.h:
                a, b = b, a
            tok = T("op", o, a, b)
            # truth compared with constants
            if o in ("==", "is") and is_const(b) and cval(b) is True:
                return a, pol
            if o in ("==", "is") and is_const(b) and cval(b) is False:
                return a, not pol
        elif tok.op == "op" and tok.args[0] == "len":
            return T("nonempty", tok.args[1], tok.args[2]), pol
        else:
            at = self.ttype.get(tok, ())
            if tok.op in ("list", "comp", "copyof") or (at and all(a[0] in CONT or a[0] == "None" or
                      (a[0] == "I" and self.types.is_container_cls(self.prog.classes[a[1]])) for a in at)
                                                         and any(a[0] != "None" for a in at)
                                                         and not any(a[0] == "None" for a in at)):
                return T("nonempty", tok, self.content_ver(st, tok)), pol
        return tok, pol

    def decide_tok(self, tok, st, node=None):
        c, pol = self.canon(tok, st, node)
        d = self._decide(c, st)
        if d is None:
            return None
        return d == pol

    def _decide(self, c, st):
        if c in st.facts:
            return st.facts[c]
        if is_const(c):
            return bool(cval(c))
        if c.op == "op" and len(c.args) == 3:
            o, a, b = c.args
            if o in ("==", "is"):
                if a is b:
                    return True
                if is_const(a) and is_const(b):
                    return cval(a) == cval(b) if o == "==" else cval(a) is cval(b)
                if b is NONE:
                    if a.op in ("new", "tuple", "list", "comp", "copyof", "dict", "func", "bound", "cls", "lambda",
                                "closure", "gen", "op", "aug", "enumval"):
                        return False
                    if a.op == "exc":
                        return False
                    if a.op in ("call", "pcall") and str(a.args[0]).startswith("numpy."):
                        return False
                    if st.facts.get(a) is True:
                        return False
                    n = T("nonempty", a, self.content_ver(st, a))
                    if st.facts.get(n) is True:
                        return False
                if a.op == "new" and b.op == "new" and a is not b:
                    return False if o == "is" else None
                if a.op == "enumval" and b.op == "enumval":
                    return a is b
                if a.op == "tuple" and b.op == "tuple" and len(a.args) == len(b.args):
                    ds = [self._decide(self.canon(T("op", "==", x, y), st)[0], st) for x, y in zip(a.args, b.args)]
                    if all(d is True for d in ds):
                        return True
                    if any(d is False for d in ds):
                        return False
                if o == "==" and (is_const(a) or is_const(b)):
                    # phi of constants
                    x, k = (b, a) if is_const(a) else (a, b)
                    opts = self.phi_info.get(x) if x.op == "phi" else None
                    if opts and all(is_const(v) for v in opts):
                        eqs = {cval(v) == cval(k) for v in opts}
                        if len(eqs) == 1:
                            return eqs.pop()
            if o == "in" and b.op in ("tuple", "list") and not (b, "#ver") in st.heap:
                its = b.args if b.op == "tuple" else b.args[1:]
                ds = [self._decide(self.canon(T("op", "==", a, x), st)[0], st) for x in its]
                if any(d is True for d in ds):
                    return True
                if all(d is False for d in ds):
                    return False
            if o == "<" and is_const(a) and is_const(b):
                try:
                    return cval(a) < cval(b)
                except TypeError:
                    return None
            return None
        if c.op in ("new", "func", "cls", "bound", "lambda", "closure", "enumval"):
            if c.op == "new":
                k = self.prog.classes.get(c.args[0])
                if k is not None and (self.prog.find_method(k, "__bool__") or self.prog.find_method(k, "__len__")
                                      or self.types.is_container_cls(k)):
                    return None
            return True
        if c.op == "exc":
            return True
        if c.op == "tuple":
            return len(c.args) > 0
        if c.op == "nonempty":
            x = c.args[0]
            items = self.known_items(x, st)
            if items is not None:
                return len(items) > 0
        if c.op == "isinst":
            return None
        return None

    # ------------------------------------------------------------------ expressions
    def ev_many(self, exprs, st, fr):
        cur = [(st, [])]
        for e in exprs:
            nxt = []
            for s, vs in cur:
                for s2, v in self.ev(e, s, fr):
                    nxt.append((s2, vs + [v]))
            cur = nxt
        return cur

    def ev(self, e, st, fr):
        self.steps += 1
        if self.steps > self.max_steps or (self.steps & 255) == 0 and time.process_time() > self.deadline:
            raise Budget("step limit")
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return [(st, T("unknown", id(e)))]
        res = m(e, st, fr)
        at = self.types.expr.get(e)
        if at:
            for s, v in res:
                if v not in self.ttype and v.op not in ("const",):
                    self.ttype[v] = set(at)
        return res

    def e_Constant(self, e, st, fr):
        if e.value is Ellipsis:
            return [(st, T("const", "..."))]
        return [(st, const(e.value))]

    def e_JoinedStr(self, e, st, fr):
        out = [(st, [])]
        for x in e.values:
            nxt = []
            for s, vs in out:
                if isinstance(x, ast.FormattedValue):
                    for s2, v in self.ev(x.value, s, fr):
                        spec = ""
                        if x.format_spec is not None:
                            parts = getattr(x.format_spec, "values", [x.format_spec])
                            spec = "".join(str(p.value) for p in parts) if all(isinstance(p, ast.Constant) for p in parts) else ast.unparse(x.format_spec)
                        nxt.append((s2, vs + [T("fmt", v, x.conversion, spec)]))
                else:
                    nxt.append((s, vs + [const(x.value)]))
            out = nxt
        res = []
        for s, vs in out:
            ps = [cval(v) if is_const(v) else cval(v.args[0]) if v.op == "fmt" and v.args[1] == -1 and not v.args[2] and is_const(v.args[0])
                  and isinstance(cval(v.args[0]), (str, int)) else None for v in vs]
            res.append((s, const("".join(str(p) for p in ps)) if None not in ps else T("fstr", *vs)))
        return res

    def e_Name(self, e, st, fr):
        return [(st, self.read_name(e.id, st, fr, e))]

    def read_name(self, name, st, fr, node):
        env = st.envs.get(fr.fid, {})
        if name in env:
            return env[name]
        fid = fr.parent
        if fid is not None and name in st.envs.get(fid, {}):
            return st.envs[fid][name]
        if fr.func is not None:
            if not hasattr(fr.func, "_locals"):
                fr.func._locals = local_names(fr.func)
            if name in fr.func._locals:
                f = fr.func
                if name in f.nested:
                    return T("closure", f.nested[name].qual, fr.fid)
                return T("unbound", name)
            p = fr.func.parent
            while p is not None:
                if name in p.nested:
                    return T("closure", p.nested[name].qual, fr.parent)
                p = p.parent
        g = st.heap.get((T("mod", fr.mod.name), name))
        if g is not None:
            return g
        ent = self.prog.lookup(fr.mod, name)
        if ent is None:
            return T("undefined", name)
        return self.entity_tok(ent, st)

    def entity_tok(self, ent, st=None):
        if ent[0] == "from":
            e2 = self.prog.lookup_in(ent[1], ent[2])
            return self.entity_tok(e2, st) if e2 is not None else T("undefined", ent[2])
        if ent[0] == "func":
            return T("func", ent[1].qual)
        if ent[0] == "class":
            return T("cls", ent[1].qual)
        if ent[0] == "mod":
            return T("mod", ent[1].name)
        if ent[0] == "ext":
            return T("ext", ent[1])
        if ent[0] == "const":
            ok, v = self.prog.const_value(ent[1], ent[2])
            if ok and (v is None or isinstance(v, (int, float, str, bool, tuple))):
                return const(v)
            if st is not None:
                h = st.heap.get((T("mod", ent[1].name), ent[2]))
                if h is not None:
                    return h
            ex = ent[1].consts.get(ent[2])
            if ex and len(ex) == 1 and isinstance(ex[0], ast.Attribute) and ent[2] not in self.prog.rebound_globals(ent[1]):
                al = self.prog.resolve_expr(ent[1], ex[0])
                if al is not None and al[0] in ("ext", "func", "class", "mod"):
                    return self.entity_tok(al, st)
            t = T("glob", ent[1].name, ent[2], st.epoch.get(ent[2]) if st is not None else None)
            at = self.types.var.get(("glob", ent[1].name, ent[2]))
            if at and t not in self.ttype:
                self.ttype[t] = set(at)
            return t
        return T("unknown", str(ent))

    def e_Attribute(self, e, st, fr):
        out = []
        for s, b in self.ev(e.value, st, fr):
            out += self.read_attr(b, e.attr, s, fr, e)
        return out

    def classes_of(self, tok, node=None):
        """Possible own classes of the value."""
        if tok.op == "new":
            c = self.prog.classes.get(tok.args[0])
            return [c] if c is not None else []
        at = self.ttype.get(tok)
        if not at and node is not None:
            at = self.types.atoms(node)
        out = []
        for a in sorted(at or (), key=repr):
            if a[0] == "I":
                c = self.prog.classes[a[1]]
                if c not in out:
                    out.append(c)
        return out

    def atoms_of(self, tok, node=None):
        at = self.ttype.get(tok)
        if not at and node is not None:
            at = self.types.atoms(node)
        return at or set()

    def find_methods(self, tok, name, node):
        """Own methods the attribute may denote (empty list if it is a field or unknown)."""
        out = []
        if tok.op == "new" or (tok in self.ttype and tok.op == "param" and len(self.ttype[tok]) == 1):
            for c in self.classes_of(tok):
                m = self.prog.find_method(c, name)
                if m is not None:
                    out.append(m)
            return out
        if isinstance(node, ast.Attribute):
            at = self.ttype.get(tok) or self.types.atoms(node.value)
        else:
            at = self.ttype.get(tok) or set()
        cls = []
        for a in at:
            if a[0] == "I":
                cls.append(self.prog.classes[a[1]])
        for c in cls:
            m = self.prog.find_method(c, name)
            if m is not None and m not in out:
                out.append(m)
            if m is None:
                # field of this class or method defined in subclasses only
                pass
            for sub in self.prog.subclasses(c):
                if name in sub.methods and sub.methods[name] not in out and self.polymorphic(tok):
                    out.append(sub.methods[name])
        if not out and not at and not cls:
            # duck typing: unique owner of the name among own classes
            if name in DICT_METH or name in LIST_METH or name in SET_METH or name in STREAM_METH:
                return []
            cands = self.types.candidates_by_attr(name)
            fams = {self.prog.find_method(self.prog.classes[q], name) for q in cands}
            if len(fams) == 1 and None not in fams:
                out = list(fams)
        return out

    def polymorphic(self, tok):
        return True

    def method_of(self, tok, name, node):
        ms = self.find_methods(tok, name, node if isinstance(node, ast.Attribute) else None)
        if not ms:
            for c in self.classes_of(tok, node):
                m = self.prog.find_method(c, name)
                if m is not None:
                    return [m]
            return None
        return ms

    def read_attr(self, base, name, st, fr, node):
        o = base.op
        if o == "mod":
            m = self.prog.mods[base.args[0]]
            h = st.heap.get((base, name))
            if h is not None:
                return [(st, h)]
            ent = self.prog.lookup_in(m, name)
            if ent is None:
                return [(st, T("undefined", m.name + "." + name))]
            return [(st, self.entity_tok(ent, st))]
        if o == "ext":
            return [(st, T("ext", base.args[0] + "." + name))]
        if o == "cls":
            c = self.prog.classes[base.args[0]]
            m = self.prog.find_method(c, name)
            if m is not None:
                if m.kind == "class":
                    return [(st, T("bound", base, m.qual))]
                return [(st, T("func", m.qual))]
            q = c.qual + "." + name
            if q in self.prog.classes:
                return [(st, T("cls", q))]
            ca = self.prog.find_class_attr(c, name)
            if ca is not None:
                if any(str(b).startswith("enum.") for b in self.prog.ext_bases(c)):
                    return [(st, T("enumval", c.qual, name))]
                ok, v = self.prog.const_expr(c.mod, ca[1])
                if ok and not isinstance(v, (tuple,)):
                    return [(st, const(v))]
            return [(st, T("attr", base, name, st.epoch.get(name)))]
        if o == "super":
            c = self.prog.classes[base.args[0]]
            for b in self.prog.mro(c)[0][1:]:
                if name in b.methods:
                    return [(st, T("bound", base.args[1], b.methods[name].qual))]
            return [(st, T("attr", base, name, None))]
        v = st.heap.get((base, name))
        if v is not None:
            return [(st, v)]
        ms = self.find_methods(base, name, node)
        if ms:
            if all(m.kind == "property" for m in ms):
                return self.call_user(ms, [base], {}, node, st, fr)
            if all(m.kind == "static" for m in ms) and len(ms) == 1:
                return [(st, T("func", ms[0].qual))]
            return [(st, T("bound", base, *[m.qual for m in ms]))]
        # class level constants (one value for all classes the object may have)
        found = set()
        for c in self.classes_of(base, node.value if isinstance(node, ast.Attribute) else None):
            ca = self.prog.find_class_attr(c, name)
            if ca is not None and (ca[1] is None or name in attrs_fields(ca[0])):
                ca = None       # a field of the instances
            if ca is not None and not any(("fld", k.qual, name) in self.types.var and
                                          (k.qual, name) in self.types.field_sites()
                                          for k in self.prog.mro(c)[0]):
                ok, v = self.prog.const_expr(c.mod, ca[1])
                found.add(const(v) if ok and not isinstance(v, tuple) else T("clsattr", ca[0].qual, name))
        if len(found) == 1:
            return [(st, found.pop())]
        t = T("attr", base, name, st.epoch.get(name))
        return [(st, t)]

    def e_Subscript(self, e, st, fr):
        out = []
        for s, b in self.ev(e.value, st, fr):
            for s2, k in self.ev_slice(e.slice, s, fr):
                out.append((s2, self.read_item(b, k, s2, fr, e)))
        return out

    def ev_slice(self, e, st, fr):
        return self.ev(e, st, fr)

    def e_Slice(self, e, st, fr):
        parts = [x if x is not None else ast.Constant(value=None) for x in (e.lower, e.upper, e.step)]
        return [(s, T("slice", *vs)) for s, vs in self.ev_many(parts, st, fr)]

    def read_item(self, base, key, st, fr, node):
        v = st.heap.get((base, ("#i", key)))
        if v is not None:
            return v
        if is_const(key) and isinstance(cval(key), int) and not isinstance(cval(key), bool):
            items = self.known_items(base, st, True)
            if items is not None:
                i = cval(key)
                if -len(items) <= i < len(items):
                    return items[i]
            if base.op == "comp" and not base.args[4] and (base, "#ver") not in st.heap:
                r = self.comp_item(base, key)
                if r is not None:
                    return r
        if is_const(base) and is_const(key) and isinstance(cval(base), tuple):
            try:
                return const(cval(base)[cval(key)])
            except Exception:
                pass
        if base.op == "copyof" and base.args[0] in ("builtins.list", "builtins.tuple", "builtins.iter") \
                and (base, "#ver") not in st.heap and key.op != "slice":
            return self.read_item(base.args[1], key, st, fr, node)
        if base.op == "dict" and (base, "#ver") not in st.heap:
            for kv in base.args[1:]:
                if kv.args[0] is key:
                    return kv.args[1]
        ver = st.heap.get((base, ("#iv",)))
        if ver is None and base.op == "attr":
            ver = st.epoch.get("#" + base.args[1])
        t = T("item", base, key, ver) if ver is not None else T("item", base, key)
        if key.op != "slice" and t not in self.ttype:
            at = self.ttype.get(base)
            if at:
                r = set()
                saved, self.types.cur = self.types.cur, None
                if is_const(key) and isinstance(cval(key), int):
                    kn = ast.Constant(value=cval(key))
                    r = self.types.item(at, kn)
                else:
                    r = self.types.item(at, None)
                self.types.cur = saved
                if r:
                    self.ttype[t] = set(r)
        return t

    def elem_of(self, coll, st, fr, node):
        """Token of a generic element of the collection."""
        o = coll.op
        r = None
        if o == "copyof":
            if (coll, "#ver") not in st.heap:
                return self.elem_of(coll.args[1], st, fr, node)
        elif o == "comp":
            if (coll, "#ver") not in st.heap:
                return coll.args[1]
        elif o == "enum":
            r = T("tuple", T("idx", coll.args[0]), self.elem_of(coll.args[0], st, fr, node))
        elif o == "zip":
            r = T("tuple", *[self.elem_of(c, st, fr, node) for c in coll.args])
        elif o == "items":
            d = coll.args[0]
            v = self.content_ver(st, d)
            k = T("key", d, v)
            x = T("val", d, v)
            at = self.ttype.get(d, set())
            self.types.cur = None
            ka, va = self.types.elem(at), self.types.value_elem(at)
            if ka and k not in self.ttype:
                self.ttype[k] = set(ka)
            if va and x not in self.ttype:
                self.ttype[x] = set(va)
            r = T("tuple", k, x)
        elif o == "values":
            d = coll.args[0]
            r = T("val", d, self.content_ver(st, d))
            va = self.types.value_elem(self.ttype.get(d, set()))
            if va and r not in self.ttype:
                self.ttype[r] = set(va)
        elif o == "keys":
            d = coll.args[0]
            r = T("key", d, self.content_ver(st, d))
        elif o in ("tuple", "list") and self.known_items(coll, st):
            its = self.known_items(coll, st)
            r = its[0] if len(its) == 1 else self.phi(its, node, "elem")
        elif o == "op" and coll.args[0] == "+":
            r = self.phi([self.elem_of(c, st, fr, node) for c in coll.args[1:]], node, "elem")
        elif o == "gen":
            r = T("elem", coll, T("v0"))
            at = self.types.var.get(("yld", (coll.args[0], None)))
            if at and r not in self.ttype:
                self.ttype[r] = set(at)
        elif o == "clsattr" or o == "attr":
            pass
        if r is None:
            at = self.ttype.get(coll, set())
            self.types.cur = None
            if at and all(a[0] == "dc" or (a[0] == "I" and self.types.is_container_cls(self.prog.classes[a[1]]))
                          for a in at):
                r = T("key", coll, self.content_ver(st, coll))
            else:
                r = T("elem", coll, self.content_ver(st, coll))
            ea = self.types.elem(at)
            if ea and r not in self.ttype:
                self.ttype[r] = set(ea)
        if r.op == "elem" and r in self.ttype:
            tp = [a for a in self.ttype[r] if a[0] == "tp"]
        return r

    def e_Tuple(self, e, st, fr):
        return [(s, self.mk_seq("tuple", e, vs)) for s, vs in self.ev_many_star(e.elts, st, fr)]

    def e_List(self, e, st, fr):
        return [(s, self.mk_seq("list", e, vs)) for s, vs in self.ev_many_star(e.elts, st, fr)]

    def e_Set(self, e, st, fr):
        return [(s, T("setlit", id(e), *vs)) for s, vs in self.ev_many_star(e.elts, st, fr)]

    def mk_seq(self, kind, e, vs):
        if any(v.op == "star" for v in vs):
            return T("seq" + kind, id(e), *vs)
        if kind == "tuple":
            return T("tuple", *vs)
        return T("list", id(e), *vs)

    def ev_many_star(self, exprs, st, fr):
        cur = [(st, [])]
        for x in exprs:
            nxt = []
            for s, vs in cur:
                if isinstance(x, ast.Starred):
                    for s2, v in self.ev(x.value, s, fr):
                        its = self.known_items(v, s2, True)
                        if its is not None:
                            nxt.append((s2, vs + its))
                        else:
                            nxt.append((s2, vs + [T("star", v)]))
                else:
                    for s2, v in self.ev(x, s, fr):
                        nxt.append((s2, vs + [v]))
            cur = nxt
        return cur

    def e_Dict(self, e, st, fr):
        cur = [(st, [])]
        for k, v in zip(e.keys, e.values):
            nxt = []
            for s, kvs in cur:
                if k is None:
                    for s2, x in self.ev(v, s, fr):
                        nxt.append((s2, kvs + [T("kv", T("star", x), x)]))
                else:
                    for s2, (a, b) in self.ev_many([k, v], s, fr):
                        nxt.append((s2, kvs + [T("kv", a, b)]))
            cur = nxt
        return [(s, T("dict", id(e), *kvs)) for s, kvs in cur]

    def e_IfExp(self, e, st, fr):
        out = []
        for s, v in self.truth(e.test, st, fr):
            out += self.ev(e.body if v else e.orelse, s, fr)
        return out

    def e_BoolOp(self, e, st, fr):
        isand = isinstance(e.op, ast.And)
        cur = [st]
        out = []
        for i, x in enumerate(e.values):
            nxt = []
            for s in cur:
                for s1, v in self.ev(x, s, fr):
                    if i == len(e.values) - 1:
                        out.append((s1, v))
                        continue
                    for s2, b in self.split(v, s1, fr, x):
                        if b == isand:
                            nxt.append(s2)
                        else:
                            out.append((s2, v))
            cur = nxt
        return out

    def e_UnaryOp(self, e, st, fr):
        out = []
        for s, v in self.ev(e.operand, st, fr):
            if isinstance(e.op, ast.Not):
                d = self.decide_tok(v, s)
                if d is not None:
                    out.append((s, const(not d)))
                else:
                    c, pol = self.canon(v, s)
                    out.append((s, c if not pol else T("op", "not", c)))
            elif isinstance(e.op, ast.USub):
                if is_const(v) and isinstance(cval(v), (int, float)):
                    out.append((s, const(-cval(v))))
                else:
                    out.append((s, T("op", "neg", v)))
            else:
                out.append((s, T("op", type(e.op).__name__, v)))
        return out

    def e_BinOp(self, e, st, fr):
        out = []
        for s, (a, b) in self.ev_many([e.left, e.right], st, fr):
            o = OPS.get(type(e.op), "?")
            out.append((s, self.binop(o, a, b, s, e)))
        return out

    def binop(self, o, a, b, st, node):
        if is_const(a) and is_const(b):
            x, y = cval(a), cval(b)
            try:
                if isinstance(x, (int, float)) and isinstance(y, (int, float)):
                    if o == "+":
                        return const(x + y)
                    if o == "-":
                        return const(x - y)
                    if o == "*":
                        return const(x * y)
                    if o == "%" and y:
                        return const(x % y)
                    if o == "//" and y:
                        return const(x // y)
                    if o == "/" and y:
                        return const(x / y)
                if o == "+" and isinstance(x, str) and isinstance(y, str):
                    return const(x + y)
            except Exception:
                pass
        # 1 - (1 - x) = x
        if o == "-" and is_const(a) and b.op == "op" and b.args[0] == "-" and len(b.args) == 3 and b.args[1] is a:
            return b.args[2]
        if o == "+" and a.op == "tuple" and b.op == "tuple":
            return T("tuple", *(a.args + b.args))
        if o == "*":
            for x, y in ((a, b), (b, a)):
                if is_const(x) and isinstance(cval(x), int) and 0 <= cval(x) <= 4:
                    if y.op == "tuple":
                        return T("tuple", *(y.args * cval(x)))
                    if y.op == "list" and (y, "#ver") not in st.heap:
                        return T("list", id(node), *(y.args[1:] * cval(x)))
        if o == "+" and a.op == "list" and b.op == "list" and (a, "#ver") not in st.heap and (b, "#ver") not in st.heap:
            return T("list", id(node), *(a.args[1:] + b.args[1:]))
        return T("op", o, a, b)

    def e_Compare(self, e, st, fr):
        out = []
        for s, vs in self.ev_many([e.left] + e.comparators, st, fr):
            if len(vs) == 2:
                c = self.compare(CMP[type(e.ops[0])], vs[0], vs[1], s)
                d = self.decide_tok(c, s)
                out.append((s, const(d) if d is not None else c))
            else:
                cs = [self.compare(CMP[type(o)], a, b, s) for o, a, b in zip(e.ops, vs, vs[1:])]
                out.append((s, T("op", "and", *cs)))
        return out

    def compare(self, o, a, b, st):
        if o in ("in", "not in"):
            v = self.content_ver(st, b)
            if v is not T("v0"):
                b = T("atver", b, v)
        # numpy comparisons are element wise - tokens only
        return T("op", o, a, b)

    def e_Starred(self, e, st, fr):
        return [(s, T("star", v)) for s, v in self.ev(e.value, st, fr)]

    def e_Lambda(self, e, st, fr):
        f = self.prog.node_func.get(e)
        return [(st, T("lambda", id(e), fr.fid) if f is None else T("closure", f, fr.fid))]

    def e_NamedExpr(self, e, st, fr):
        out = []
        for s, v in self.ev(e.value, st, fr):
            for s2 in self.assign(e.target, v, s, fr, e):
                out.append((s2, v))
        return out

    def e_Await(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_Yield(self, e, st, fr):
        vals = self.ev(e.value, st, fr) if e.value is not None else [(st, NONE)]
        out = []
        for s, v in vals:
            self.emit(s, Ev("yield", None, args=(v,), node=e), fr)
            if self.yield_handlers and self.yield_handlers[-1] is not None:
                cont, unwind = self.yield_handlers[-1](s, v)
                self.pending += unwind
                for s2 in cont:
                    out.append((s2, NONE))
            else:
                self.may_raise(s)
                out.append((s, NONE))
        return out

    def e_YieldFrom(self, e, st, fr):
        out = []
        for s, v in self.ev(e.value, st, fr):
            el = self.elem_of(v, s, fr, e)
            self.emit(s, Ev("yield", None, args=(el,), node=e), fr)
            if self.yield_handlers and self.yield_handlers[-1] is not None:
                cont, unwind = self.yield_handlers[-1](s, el)
                self.pending += unwind
                for s2 in cont:
                    out.append((s2, NONE))
            else:
                out.append((s, NONE))
        return out

    # comprehensions -------------------------------------------------------
    def comp(self, e, st, fr, kind, elts):
        gens = e.generators
        out = []

        def rec(i, s, conds, colls, elems):
            if i == len(gens):
                for s2, vs in self.ev_many(elts, s, fr):
                    yield s2, vs, conds, colls, elems
                return
            g = gens[i]
            for s1, coll in self.ev(g.iter, s, fr):
                el = self.elem_of(coll, s1, fr, e)
                for s2 in self.assign(g.target, el, s1, fr, e):
                    cs = [(s2, [])]
                    for c in g.ifs:
                        nxt = []
                        for s3, ctoks in cs:
                            for s4, v in self.ev(c, s3, fr):
                                nxt.append((s4, ctoks + [v]))
                        cs = nxt
                    for s3, ctoks in cs:
                        yield from rec(i + 1, s3, conds + ctoks, colls + [coll], elems + [el])
        # known literal sequence: exact list
        if len(gens) == 1 and not gens[0].ifs and kind in ("ls", "gen"):
            res = []
            okk = True
            for s1, coll in self.ev(gens[0].iter, st, fr):
                items = self.known_items(coll, s1)
                if items is None or len(items) > 8:
                    okk = False
                    break
                cur = [(s1, [])]
                for it in items:
                    nxt = []
                    for s2, vs in cur:
                        for s3 in self.assign(gens[0].target, it, s2, fr, e):
                            for s4, v in self.ev(elts[0], s3, fr):
                                nxt.append((s4, vs + [v]))
                    cur = nxt
                for s2, vs in cur:
                    res.append((s2, T("list", id(e), *vs)))
            if okk:
                return res
            st = st
        saved_env = dict(st.envs.get(fr.fid, {}))
        base_trace = st.trace
        s0 = st.copy()
        s0.trace = None
        bodies = []
        finals = []
        for s, vs, conds, colls, elems in rec(0, s0, [], [], []):
            evs = s.events()
            bodies.append((evs, "next"))
            finals.append((s, vs, conds, colls, elems))
        res = []
        lev = Ev("loop", "comp", recv=finals[0][3][0] if finals else None, node=e, extra=bodies, func=fr.func,
                 stack=fr.stack)
        has = any(b[0] for b in bodies)
        seen = set()
        for s, vs, conds, colls, elems in finals:
            s.trace = base_trace
            if has:
                s.trace = (s.trace, lev)
            # comprehension variables are local
            names = {n.id for g in gens for n in ast.walk(g.target) if isinstance(n, ast.Name)}
            env = s.envs[fr.fid]
            for n in names:
                if n in saved_env:
                    env[n] = saved_env[n]
                else:
                    env.pop(n, None)
            c = T("conds", *conds)
            elt = vs[0] if len(vs) == 1 else T("tuple", *vs)
            if len(colls) == 1:
                t = T("comp", kind, elt, colls[0], elems[0], c if conds else None, id(e))
            else:
                t = T("comp", kind, elt, T("tuple", *colls), None, c if conds else None, id(e))
            if (t,) in seen:
                continue
            seen.add((t,))
            res.append((s, t))
        return res

    def e_ListComp(self, e, st, fr):
        return self.comp(e, st, fr, "ls", [e.elt])

    def e_SetComp(self, e, st, fr):
        return self.comp(e, st, fr, "st", [e.elt])

    def e_GeneratorExp(self, e, st, fr):
        return self.comp(e, st, fr, "gen", [e.elt])

    def e_DictComp(self, e, st, fr):
        return self.comp(e, st, fr, "dc", [e.key, e.value])

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st, fr):
        f = e.func
        if isinstance(f, ast.Name) and f.id == "super" and not e.args:
            fn = fr.func
            if fn.cls is not None:
                ps = fn.pos_params()
                me = st.envs[fr.fid].get(ps[0]) if ps else None
                return [(st, T("super", fn.cls.qual, me if me is not None else NONE))]
        if isinstance(f, ast.Name) and f.id == "super" and len(e.args) == 2:
            out = []
            for s, vs in self.ev_many(e.args, st, fr):
                if vs[0].op == "cls":
                    out.append((s, T("super", vs[0].args[0], vs[1])))
                else:
                    out.append((s, T("unknown", id(e))))
            return out
        out = []
        for s, ft in self.ev(f, st, fr):
            for s2, args, kw in self.ev_args(e, s, fr):
                out += self.call(ft, args, kw, e, s2, fr)
        return out

    def ev_args(self, e, st, fr):
        cur = [(st, [], {})]
        for x in e.args:
            nxt = []
            for s, a, k in cur:
                if isinstance(x, ast.Starred):
                    for s2, v in self.ev(x.value, s, fr):
                        its = self.known_items(v, s2, True)
                        if its is not None:
                            nxt.append((s2, a + its, k))
                        else:
                            nxt.append((s2, a + [T("star", v)], k))
                else:
                    for s2, v in self.ev(x, s, fr):
                        nxt.append((s2, a + [v], k))
            cur = nxt
        for kwd in e.keywords:
            nxt = []
            for s, a, k in cur:
                for s2, v in self.ev(kwd.value, s, fr):
                    k2 = dict(k)
                    if kwd.arg is None:
                        k2["**"] = v
                        if v.op == "dict":
                            k2.pop("**")
                            for kv in v.args[1:]:
                                if is_const(kv.args[0]):
                                    k2[cval(kv.args[0])] = kv.args[1]
                    else:
                        k2[kwd.arg] = v
                    nxt.append((s2, a, k2))
            cur = nxt
        return cur

    def call(self, ft, args, kw, node, st, fr):
        o = ft.op
        if o == "func":
            return self.call_user([self.prog.funcs[ft.args[0]]], args, kw, node, st, fr)
        if o == "bound":
            fs = [self.prog.funcs[q] for q in ft.args[1:]]
            if len(fs) == 1 and fs[0].kind == "static":
                return self.call_user(fs, args, kw, node, st, fr)
            return self.call_user(fs, [ft.args[0]] + args, kw, node, st, fr)
        if o == "cls":
            return self.instantiate(self.prog.classes[ft.args[0]], args, kw, node, st, fr)
        if o == "closure":
            f = ft.args[0] if not isinstance(ft.args[0], str) else self.prog.funcs[ft.args[0]]
            return self.call_user([f], args, kw, node, st, fr, closure=ft.args[1])
        if o == "ext":
            return self.call_ext(ft.args[0], args, kw, node, st, fr)
        if o == "phi" or o == "lphi":
            opts = self.phi_info.get(ft, [])
            if opts and all(x.op in ("func", "bound", "cls", "closure") for x in opts) and len(opts) <= 4:
                out = []
                for x in opts:
                    out += self.call(x, args, kw, node, st.copy(), fr)
                return out
        if o == "attr":
            # method of builtin container / array / unknown object
            return self.call_method(ft.args[0], ft.args[1], args, kw, node, st, fr)
        if o == "const" or o == "unknown":
            pass
        # calling an unknown value
        res = T("call", "?", ft, *(list(args) + [T("kw", k, v) for k, v in sorted(kw.items())] + [self.uid(node, st)]))
        # types of callable: instances with __call__
        for c in self.classes_of(ft):
            m = self.prog.find_method(c, "__call__")
            if m is not None:
                return self.call_user([m], [ft] + args, kw, node, st, fr)
        ats = self.ttype.get(ft, ())
        fs = [self.prog.funcs[a[1]] for a in ats if a[0] == "F"]
        if fs and len(fs) <= 3 and all(a[0] == "F" for a in ats):
            return self.call_user(fs, args, kw, node, st, fr)
        bs = [a for a in ats if a[0] == "C"]
        if len(bs) == 1 and len(ats) == 1:
            return self.instantiate(self.prog.classes[bs[0][1]], args, kw, node, st, fr)
        self.emit(st, Ev("call", "?", recv=ft, args=args, kw=kw, res=res, node=node, extra="unknown"), fr)
        self.may_raise(st)
        self.tick(st, fr, node)
        return [(st, res)]

    def uid(self, node, st):
        return T("uid", id(node), st.clock)

    def call_method(self, recv, name, args, kw, node, st, fr):
        """Method of a value which is not an instance of own class."""
        # dict-like views
        if recv.op == "attr" and False:
            pass
        at = self.atoms_of(recv, node.func.value if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) else None)
        isnp = bool(at) and all(a[0] in ("np", "num") for a in at)
        if recv.op == "attr" and recv.args[1] == "model":
            # the CAD kernel: every call has an effect outside the program
            res = T("call", "." + name, recv, *(args + [T("kw", k, v) for k, v in sorted(kw.items())] + [self.uid(node, st)]))
            self.emit(st, Ev("call", "." + name, recv=recv, args=args, kw=kw, res=res, node=node, extra="ext"), fr)
            self.tick(st, fr, node)
            self.may_raise(st)
            return [(st, res)]
        if not args and name in ("items", "values", "keys"):
            return [(st, T(name, recv))]
        if name == "copy" and not args:
            t = T("copyof", "copy", recv, id(node))
            if recv in self.ttype:
                self.ttype.setdefault(t, set(self.ttype[recv]))
            return [(st, t)]
        if name in MUTATORS and not (isnp and name in ("sum",)):
            if name == "setdefault" or name == "pop" or name in ("popleft", "popitem"):
                if name == "setdefault":
                    res = T("call", "." + name, recv, *(args + [self.content_ver(st, recv)]))
                else:
                    res = T("call", "." + name, recv, *(args + [self.uid(node, st)]))
                ty = self.types.expr.get(node)
                if ty:
                    self.ttype.setdefault(res, set(ty))
            else:
                res = NONE
            self.emit(st, Ev("mut", name, recv=recv, args=args, kw=kw, res=res, node=node), fr)
            if name in ("remove", "pop"):
                self.may_raise(st)
            items = self.known_items(recv, st)
            self.bump(st, recv, node)
            self.tick(st, fr, node)
            if items is not None and len(items) < 8:
                if name in ("append", "add") and len(args) == 1 and recv.op != "setlit":
                    st.heap[(recv, "#items")] = T("items", *(items + [args[0]]))
                elif name == "pop" and not args and items:
                    st.heap[(recv, "#items")] = T("items", *items[:-1])
                elif name == "pop" and len(args) == 1 and is_const(args[0]) and items and cval(args[0]) in (0, -1):
                    st.heap[(recv, "#items")] = T("items", *(items[1:] if cval(args[0]) == 0 else items[:-1]))
                elif name == "clear":
                    st.heap[(recv, "#items")] = T("items")
            return [(st, res)]
        if name == "get" and args:
            v = self.read_item(recv, args[0], st, fr, None)
            if v.op != "item":
                return [(st, v)]
        if name == "format" and is_const(recv) and isinstance(cval(recv), str) and all(is_const(a) and isinstance(cval(a), (str, int)) for a in args) \
                and not kw:
            try:
                return [(st, const(cval(recv).format(*[cval(a) for a in args])))]
            except Exception:
                pass
        ver = self.content_ver(st, recv)
        kws = [T("kw", k, v) for k, v in sorted(kw.items())]
        pure = isnp or any(a[0] in CONT or a[0] == "str" for a in at) or name in DICT_METH or name in LIST_METH \
            or name in SET_METH or name in ("format", "join", "split", "strip")
        if pure:
            extra = [ver] if ver is not T("v0") else []
            res = T("pcall", "." + name, recv, *(args + kws + extra))
            self.emit(st, Ev("call", "." + name, recv=recv, args=args, kw=kw, res=res, node=node, extra="pure"), fr)
        else:
            res = T("call", "." + name, recv, *(args + kws + [self.uid(node, st)]))
            self.emit(st, Ev("call", "." + name, recv=recv, args=args, kw=kw, res=res, node=node, extra="ext"), fr)
            self.tick(st, fr, node)
        self.may_raise(st)
        return [(st, res)]

    def call_ext(self, name, args, kw, node, st, fr):
        kws = [T("kw", k, v) for k, v in sorted(kw.items())]
        if name == "builtins.len" and len(args) == 1:
            x = args[0]
            items = self.known_items(x, st)
            if items is not None:
                return [(st, const(len(items)))]
            while x.op == "copyof" and x.args[0] in ("builtins.list", "builtins.tuple", "copy") and (x, "#ver") not in st.heap:
                x = x.args[1]
            return [(st, T("op", "len", x, self.content_ver(st, x)))]
        if name in COPYERS:
            if not args:
                return [(st, T("list", id(node)) if name in ("builtins.list", "collections.deque") else T("new", name, id(node), st.clock))]
            t = T("copyof", name, args[0], id(node), *kws)
            self.emit(st, Ev("call", name, args=args, kw=kw, res=t, node=node, extra="pure"), fr)
            return [(st, t)]
        if name == "builtins.dict" and not args:
            return [(st, T("dict", id(node), *[T("kv", const(k), v) for k, v in sorted(kw.items()) if k != "**"]))]
        if name == "builtins.enumerate" and args:
            return [(st, T("enum", args[0]))]
        if name == "builtins.zip":
            if any(a.op == "star" for a in args):
                return [(st, T("zipstar", *args))]
            return [(st, T("zip", *args))]
        if name == "builtins.isinstance" and len(args) == 2:
            d = self.isinstance(args[0], args[1], st)
            if d is not None:
                return [(st, const(d))]
            return [(st, T("isinst", args[0], args[1]))]
        if name == "builtins.getattr" and len(args) >= 2 and is_const(args[1]) and isinstance(cval(args[1]), str):
            return self.read_attr(args[0], cval(args[1]), st, fr, node)
        if name in ("builtins.setattr", "builtins.object.__setattr__") and len(args) == 3:
            if is_const(args[1]):
                return [(s, NONE) for s in self.write_attr(args[0], cval(args[1]), args[2], st, fr, node)]
            self.emit(st, Ev("write", "*", recv=args[0], args=(args[2], args[1]), node=node), fr)
            return [(st, NONE)]
        if name == "builtins.type" and len(args) == 1:
            return [(st, T("typeof", args[0]))]
        if name == "builtins.map" and len(args) == 2:
            el = self.elem_of(args[1], st, fr, node)
            res = []
            saved = st.copy()
            for s, v in self.call(args[0], [el], {}, node, st, fr):
                res.append((s, T("comp", "gen", v, args[1], el, None, id(node))))
            return res
        if name == "builtins.next" and args and args[0].op in ("gen",):
            pass
        pure = name.startswith("numpy.") or name.startswith("math.") or name.startswith("builtins.") or \
            name.startswith("itertools.") or name.startswith("scipy.") or name.startswith("copy.")
        if name in ("builtins.print", "builtins.open", "builtins.input", "builtins.exec", "builtins.eval",
                    "builtins.next") or name.startswith("numpy.random") or name.startswith("random."):
            pure = False
        args2 = list(args)
        if pure:
            vers = []
            for a in args:
                v = self.content_ver(st, a)
                if v is not T("v0"):
                    vers.append(T("ver", a, v))
            res = T("pcall", name, *(args2 + kws + vers))
            fresh = name in ("numpy.array", "numpy.zeros", "numpy.ones", "numpy.empty", "numpy.full", "numpy.zeros_like",
                             "numpy.copy")
            if fresh:
                res = T("pcall", name, *(args2 + kws + vers + [T("site", id(node))]))
        else:
            res = T("call", name, *(args2 + kws + [self.uid(node, st)]))
        self.emit(st, Ev("call", name, args=args2, kw=kw, res=res, node=node, extra="pure" if pure else "ext"), fr)
        if name not in ("builtins.print", "builtins.abs", "builtins.repr", "builtins.str", "builtins.range",
                        "builtins.hasattr", "builtins.id"):
            self.may_raise(st)
        if not pure and name != "builtins.print":
            self.tick(st, fr, node)
        ob = kw.get("out")
        if ob is not None:
            self.emit(st, Ev("mut", "out=", recv=ob, args=args, node=node), fr)
            self.bump(st, ob, node)
        return [(st, res)]

    def isinstance(self, tok, ctok, st):
        cls = []
        cs = self.known_items(ctok, st) if ctok.op in ("tuple", "list") else [ctok]
        own = [self.prog.classes[c.args[0]] for c in cs if c.op == "cls"]
        extn = [c.args[0] for c in cs if c.op == "ext"]
        if tok.op == "new":
            k = self.prog.classes.get(tok.args[0])
            if k is not None:
                if any(o in self.prog.mro(k)[0] for o in own):
                    return True
                if not extn:
                    return False
        if tok.op == "tuple":
            if "builtins.tuple" in extn:
                return True
            return False
        if tok.op in ("list",) and not own:
            return "builtins.list" in extn
        if is_const(tok) and not own:
            names = {type(cval(tok)).__name__}
            if isinstance(cval(tok), bool):
                names.add("int")
            return any(x.replace("builtins.", "") in names for x in extn) or None if cval(tok) is not None else False
        return None

    def instantiate(self, c, args, kw, node, st, fr):
        init = self.prog.find_method(c, "__init__")
        obj = T("new", c.qual, id(node), st.clock, self.fr_ctx(fr))
        self.ttype[obj] = {("I", c.qual, id(node) if self.types.is_container_cls(c) else 0)}
        self.emit(st, Ev("new", c.qual, args=args, kw=kw, res=obj, node=node), fr)
        if any(str(b).startswith("enum.") for b in self.prog.ext_bases(c)):
            return [(st, T("call", c.qual, *args))]
        self.tick(st, fr, node)
        if init is None:
            if attrs_fields(c):
                fields = attrs_fields(c)
                for n, a in zip(fields, args):
                    st.heap[(obj, n)] = a
                for n, a in kw.items():
                    st.heap[(obj, n)] = a
            return [(st, obj)]
        if self.policy(c) == "opaque":
            self.may_raise(st)
            return [(st, obj)]
        return [(s, obj) for s, v in self.call_user([init], [obj] + args, kw, node, st, fr)]

    def fr_ctx(self, fr):
        return tuple(f.qual for f in fr.stack[-2:])

    def bind(self, f, args, kw, st, fr, node):
        """Parameter environment of an inlined call, None if it can not be matched."""
        a = f.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        # expand a starred argument to fill the remaining positional parameters
        if any(x.op == "star" for x in args):
            i = next(i for i, x in enumerate(args) if x.op == "star")
            src = args[i].args[0]
            ndef = len(a.defaults)
            after = len(args) - i - 1
            need = len(pos) - i - after
            need_min = need - ndef
            cnt = max(need_min, 0) if a.vararg is None else max(need, 0)
            cnt = max(cnt, 0)
            given_kw = sum(1 for k in kw if k in pos)
            cnt = max(0, cnt - max(0, given_kw - ndef)) if given_kw > ndef else cnt
            exp = [self.read_item(src, const(j), st, fr, None) for j in range(cnt)]
            if a.vararg is not None:
                tail = [T("star", src)] if not pos[i:] else []
                args = args[:i] + exp + tail + args[i + 1:]
                if pos[i:]:
                    env["*rest"] = T("rest", src, cnt)
            else:
                args = args[:i] + exp + args[i + 1:]
        for n, v in zip(pos, args):
            env[n] = v
        rest = args[len(pos):]
        if a.vararg is not None:
            if "*rest" in env:
                env[a.vararg.arg] = env.pop("*rest")
            elif any(x.op == "star" for x in rest):
                env[a.vararg.arg] = rest[0].args[0] if len(rest) == 1 else T("seqtuple", id(node), *rest)
            else:
                env[a.vararg.arg] = T("tuple", *rest)
        env.pop("*rest", None)
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        extra = []
        for k, v in kw.items():
            if k in names:
                env[k] = v
            else:
                extra.append(T("kv", const(k), v))
        if a.kwarg is not None:
            if "**" in kw and len(extra) == 1:
                env[a.kwarg.arg] = kw["**"]
            else:
                env[a.kwarg.arg] = T("dict", id(a.kwarg), *extra)
        for p, d in f.defaults().items():
            if p not in env:
                ok, v = self.prog.const_expr(f.mod, d)
                if ok:
                    env[p] = const(v)
                else:
                    env[p] = T("default", f.qual, p)
        for p in f.all_params():
            if p not in env:
                env[p] = T("missing", f.qual, p)
        return env

    def call_user(self, fs, args, kw, node, st, fr, closure=None):
        out = []
        fs = list(dict.fromkeys(fs))
        if len(fs) > 6:
            fs = fs[:6]
        for i, f in enumerate(fs):
            s = st if i == len(fs) - 1 else st.copy()
            if len(fs) > 1 and f.cls is not None and args:
                # virtual dispatch: assume the class on this path
                c = T("dispatch", args[0], f.cls.qual)
                other = [g for g in fs if g is not f and s.facts.get(T("dispatch", args[0], g.cls.qual if g.cls else ""))]
                if other:
                    continue
                s.facts[c] = True
            out += self.call_one(f, args, kw, node, s, fr, closure)
        return out

    def call_one(self, f, args, kw, node, st, fr, closure=None):
        undoable = f.deco_is(self.prog, "bgem.undo.undoable")
        ctxman = any(d.endswith("contextmanager") for d in f.decos)
        pol = self.policy(f)
        env = self.bind(f, args, kw, st, fr, node)
        recursive = any(x is f for x in fr.stack) or fr.func is f
        if pol is None:
            pol = "inline" if fr.depth < self.max_depth and not recursive else "opaque"
        if pol == "inline" and (recursive and sum(1 for x in fr.stack if x is f) > 1 or fr.depth > self.max_depth + 4):
            pol = "opaque"
        if f.is_gen and not undoable:
            if pol != "opaque" or ctxman or True:
                kvs = [T("kwp", p, v) for p, v in env.items()]
                # content depends on heap state at the time of creation
                eff = self.effects(f)
                g = T("gen", f.qual, st.clock if eff else self.read_ver(f, st), *kvs)
                self.emit(st, Ev("call", f.qual, recv=env.get(f.pos_params()[0]) if f.cls is not None and f.pos_params() else None,
                                 args=[env[p] for p in f.pos_params()], kw=env, res=g, node=node, extra="gen"), fr)
                at = self.types.var.get(("yld", (f.qual, None)))
                self.ttype.setdefault(g, {("G", f.qual, None)})
                return [(st, g)]
        recv = None
        if f.cls is not None and f.kind in ("method", "property", "setter") and f.pos_params():
            recv = env.get(f.pos_params()[0])
        if pol == "opaque":
            return self.call_opaque(f, env, recv, node, st, fr)
        if undoable:
            return self.call_undoable(f, env, recv, node, st, fr)
        self.emit(st, Ev("enter", f.qual, recv=recv, args=[env[p] for p in f.pos_params()], kw=env, node=node), fr)
        nf = self.new_frame(f, fr.depth + 1, closure, fr.stack + (f,))
        st.envs[nf.fid] = env
        for p, v in env.items():
            if v not in self.ttype:
                at = self.types.var.get(("v", (f.qual if not f.is_lambda else f, None), p))
                if at and v.op not in ("const", "tuple"):
                    self.ttype[v] = set(at)
        self.yield_handlers.append(None)
        try:
            outs = self.exec_body(f, nf, st)
        finally:
            self.yield_handlers.pop()
        res = []
        keep = bool(f.nested) or any(isinstance(n, ast.Lambda) for n in ast.walk(f.node))
        merged = {}
        for o in outs:
            if not keep:
                o.st.envs.pop(nf.fid, None)
            if o.flow == "return":
                self.emit(o.st, Ev("leave", f.qual, recv=recv, res=o.val, node=node), fr)
                res.append((o.st, o.val if o.val is not None else NONE))
            else:
                self.pending.append(o)
        return self.reduce_vals(res, node)

    def reduce_vals(self, res, node):
        """Merge (state, value) results if there are too many."""
        limit = 1 if self.merge_always else self.max_states
        if len(res) <= limit:
            return res
        groups = {}
        for s, v in res:
            k = tuple(e.key() for e in s.events()) if not self.merge_always else 0
            groups.setdefault(k, []).append((s, v))
        out = []
        for k, g in groups.items():
            if len(g) == 1:
                out.append(g[0])
            else:
                s = self.join([x[0] for x in g], node)
                vals = list(dict.fromkeys(x[1] for x in g))
                out.append((s, vals[0] if len(vals) == 1 else self.phi(vals, node, "ret")))
        if len(out) > 4 * self.max_states:
            raise Budget("too many call results")
        return out

    def call_undoable(self, f, env, recv, node, st, fr):
        """Forward part of an undoable operation; value is what follows the text in the yielded tuple."""
        self.emit(st, Ev("enter", f.qual, recv=recv, args=[env[p] for p in f.pos_params()], kw=env, node=node), fr)
        nf = self.new_frame(f, fr.depth + 1, None, fr.stack + (f,))
        st.envs[nf.fid] = dict(env)
        got = []

        def handler(s, val):
            got.append(Outcome(s, "gen:stop", val))
            return [], [got[-1]]
        self.yield_handlers.append(handler)
        try:
            outs = self.exec_body(f, nf, st)
        finally:
            self.yield_handlers.pop()
        res = []
        for o in outs:
            o.st.envs.pop(nf.fid, None)
            if o.flow == "gen:stop":
                v = o.val
                if v is not None and v.op == "tuple":
                    r = v.args[1:]
                    val = NONE if len(r) == 0 else (r[0] if len(r) == 1 else T("tuple", *r))
                else:
                    val = NONE
                self.emit(o.st, Ev("leave", f.qual, recv=recv, res=val, node=node), fr)
                res.append((o.st, val))
            elif o.flow == "return":
                res.append((o.st, NONE))
            else:
                self.pending.append(o)
        return self.reduce_vals(res, node)

    # ------------------------------------------------------------------ effects of opaque calls
    def effects(self, f):
        return self.prog_effects()[0].get(f.qual, frozenset())

    def prog_effects(self):
        if not hasattr(self.prog, "_effects"):
            from .effects import compute_effects
            self.prog._effects = compute_effects(self.prog, self.types)
        return self.prog._effects

    def read_ver(self, f, st):
        """Version of the heap read by f (fields it reads)."""
        reads = self.prog_effects()[1].get(f.qual, frozenset())
        vs = [T("fv", k, st.epoch[k]) for k in sorted(reads) if k in st.epoch]
        hs = sorted(((b.h, str(n), v.h) for (b, n), v in st.heap.items()
                     if (n in reads if isinstance(n, str) and not n.startswith("#") else
                         (b.op == "attr" and "#" + b.args[1] in reads))))
        if hs:
            vs.append(T("hv", tuple(hs)))
        return T("ver", *vs) if vs else T("v0")

    def call_opaque(self, f, env, recv, node, st, fr):
        self.opaque_seen.add(f.qual)
        eff = self.effects(f)
        argl = [env[p] for p in f.pos_params()]
        kvs = [T("kwp", p, v) for p, v in env.items()]
        if eff:
            res = T("call", f.qual, *([v for v in env.values()] + [self.uid(node, st)]))
        else:
            res = T("pcall", f.qual, *([v for v in env.values()] + [self.read_ver(f, st)]))
        fk = (f.qual if not f.is_lambda else f, None)
        if f.deco_is(self.prog, "bgem.undo.undoable"):
            at = self.types.expr.get(node, frozenset())
        else:
            at = self.types.var.get(("ret", fk), frozenset())
        if at and res not in self.ttype:
            self.ttype[res] = set(at)
        self.emit(st, Ev("call", f.qual, recv=recv, args=argl, kw=env, res=res, node=node, extra="own"), fr)
        self.may_raise(st)
        if eff:
            clk = T("clk", id(node), st.clock)
            for k in list(st.heap):
                b, n = k
                if isinstance(n, str) and not n.startswith("#"):
                    if n in eff:
                        del st.heap[k]
                elif b.op == "attr" and "#" + b.args[1] in eff:
                    del st.heap[k]
            for n in eff:
                st.epoch[n] = clk
            st.clock = clk
        return [(st, res)]


def s_node(e):
    return e


def subst(tok, m):
    """Replace sub-tokens."""
    if tok in m:
        return m[tok]
    if not any(isinstance(a, Tok) for a in tok.args):
        return tok
    new = tuple(subst(a, m) if isinstance(a, Tok) else a for a in tok.args)
    if all(x is y for x, y in zip(new, tok.args)):
        return tok
    return T(tok.op, *new)
