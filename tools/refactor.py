#!/usr/bin/env python3
"""Self test: behaviour preserving rewrites of the whole source tree, under which every check has to stay quiet.
usage: refactor.py [-f file] [-t transformation[,..]] [PNN ...]
"""
import ast
import concurrent.futures
import copy
import os
import shutil
import subprocess
import sys
import symtable
import tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
FUNC = (ast.FunctionDef, ast.AsyncFunctionDef)


def own_nodes(f):
    """Nodes of a function outside nested functions, lambdas, classes and comprehensions."""
    todo = list(f.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, FUNC + (ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def locals_of(f):
    a = f.args
    params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())
    glob, names = set(), set()
    for n in own_nodes(f):
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            glob |= set(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            names.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            glob.add(n.name)
    return names - params - glob


class Rename(ast.NodeTransformer):
    """Every local variable of every top level function or method gets another name."""

    def visit_FunctionDef(self, f):
        if any(isinstance(n, FUNC + (ast.ClassDef, ast.Lambda)) for n in ast.walk(f) if n is not f):
            return f
        loc = locals_of(f)
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id in loc:
                n.id = n.id + "_loc"
        return f


class RetTemp(ast.NodeTransformer):
    """return e  ->  result = e; return result"""

    def visit_Lambda(self, n):
        return n

    def visit_Return(self, s):
        if s.value is None or isinstance(s.value, (ast.Constant, ast.Name)):
            return s
        return [ast.Assign(targets=[ast.Name("result_value", ast.Store())], value=s.value), ast.Return(ast.Name("result_value", ast.Load()))]


class Invert(ast.NodeTransformer):
    """if c: A else: B  ->  if not c: B else: A"""

    def visit_If(self, s):
        self.generic_visit(s)
        if s.orelse and not (len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If)):
            return ast.If(test=ast.UnaryOp(ast.Not(), s.test), body=s.orelse, orelse=s.body)
        return s


class Guard(ast.NodeTransformer):
    """if c: ...return else: B  ->  if c: ...return ; B"""

    def visit_If(self, s):
        self.generic_visit(s)
        if s.orelse and s.body and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
            rest = s.orelse
            s.orelse = []
            return [s] + rest
        return s


class Flip(ast.NodeTransformer):
    """a < b  ->  b > a"""
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, e):
        self.generic_visit(e)
        if len(e.ops) == 1 and type(e.ops[0]) in self.M:
            return ast.Compare(e.comparators[0], [self.M[type(e.ops[0])]()], [e.left])
        return e


class Temps(ast.NodeTransformer):
    """Right hand sides and call arguments of simple statements are computed into variables first."""
    k = 0

    def stmt(self, s, e):
        out = []
        if isinstance(e, ast.Call):
            for i, a in enumerate(e.args):
                if isinstance(a, (ast.Call, ast.BinOp, ast.Subscript, ast.Attribute, ast.Compare, ast.List, ast.Tuple)):
                    self.k += 1
                    n = "arg_%d" % self.k
                    out.append(ast.Assign(targets=[ast.Name(n, ast.Store())], value=a))
                    e.args[i] = ast.Name(n, ast.Load())
                else:
                    if not isinstance(a, (ast.Name, ast.Constant)):
                        break
        return out + [s]

    def simple(self, f):
        # receivers with calls are evaluated before the arguments: keep those
        return isinstance(f, ast.Name) or isinstance(f, ast.Attribute) and self.simple(f.value)

    def visit_Expr(self, s):
        return self.stmt(s, s.value) if isinstance(s.value, ast.Call) and self.simple(s.value.func) else s

    def visit_Assign(self, s):
        return self.stmt(s, s.value) if isinstance(s.value, ast.Call) and self.simple(s.value.func) else s

    def visit_Return(self, s):
        return self.stmt(s, s.value) if isinstance(s.value, ast.Call) and self.simple(s.value.func) else s


class CondTemp(ast.NodeTransformer):
    """if c:  ->  flag = c; if flag:   (not for elif)"""

    def visit_If(self, s, nested=False):
        s.body = self.blk(s.body)
        s.orelse = self.blk(s.orelse) if not (len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If)) else [self.inner(s.orelse[0])]
        t = s.test
        s.test = ast.Name("cond_flag", ast.Load())
        return [ast.Assign(targets=[ast.Name("cond_flag", ast.Store())], value=t), s]

    def inner(self, s):
        s.body = self.blk(s.body)
        s.orelse = self.blk(s.orelse) if not (len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If)) else [self.inner(s.orelse[0])]
        return s

    def blk(self, b):
        out = []
        for x in b:
            y = self.visit(x)
            out.extend(y if isinstance(y, list) else [y])
        return out


class CompLoop(ast.NodeTransformer):
    """x = [e for t in c if d]  ->  x = []; for t in c: if d: x.append(e)"""
    k = 0

    def visit_Assign(self, s):
        v = s.value
        if isinstance(v, ast.ListComp) and len(v.generators) == 1 and len(s.targets) == 1:
            self.k += 1
            n = "items_%d" % self.k
            g = v.generators[0]
            body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(n, ast.Load()), "append", ast.Load()), [v.elt], []))]
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            # comprehension variables are renamed, so that they do not hide other locals
            names = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            loop = ast.For(g.target, g.iter, body, [], None)
            it = {id(x) for x in ast.walk(g.iter)}
            for x in ast.walk(loop):
                if isinstance(x, ast.Name) and x.id in names and id(x) not in it:
                    x.id = x.id + "_%d" % self.k
            return [ast.Assign(targets=[ast.Name(n, ast.Store())], value=ast.List([], ast.Load())), loop,
                    ast.Assign(targets=s.targets, value=ast.Name(n, ast.Load()))]
        return s


class Comm(ast.NodeTransformer):
    """a * b -> b * a for names, attributes and numbers that are no sequences (numeric modules only)"""

    def visit_BinOp(self, e):
        self.generic_visit(e)
        if isinstance(e.op, ast.Mult) and not any(isinstance(x, (ast.List, ast.Tuple)) or isinstance(x, ast.Constant) and not isinstance(x.value, (int, float))
                                                   for y in (e.left, e.right) for x in ast.walk(y)) and \
                not any(isinstance(x, (ast.Call, ast.NamedExpr)) for y in (e.left, e.right) for x in ast.walk(y)):
            return ast.BinOp(e.right, ast.Mult(), e.left)
        return e


class AugPlain(ast.NodeTransformer):
    """n += 1 -> n = n + 1 for names and numbers"""

    def visit_AugAssign(self, s):
        if isinstance(s.target, ast.Name) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, (int, float)):
            return ast.Assign(targets=[s.target], value=ast.BinOp(ast.Name(s.target.id, ast.Load()), s.op, s.value))
        return s


class NotIn(ast.NodeTransformer):
    """a not in b -> not (a in b); a is not b -> not (a is b); a != b -> not a == b"""
    M = {ast.NotIn: ast.In, ast.IsNot: ast.Is}

    def visit_Compare(self, e):
        self.generic_visit(e)
        if len(e.ops) == 1 and type(e.ops[0]) in self.M:
            return ast.UnaryOp(ast.Not(), ast.Compare(e.left, [self.M[type(e.ops[0])]()], e.comparators))
        return e


class AndIf(ast.NodeTransformer):
    """if a and b: A (no else)  ->  if a: if b: A"""

    def visit_If(self, s):
        self.generic_visit(s)
        if not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
            body = s.body
            for t in reversed(s.test.values):
                body = [ast.If(t, body, [])]
            return body[0]
        return s


class SplitTuple(ast.NodeTransformer):
    """a, b = e  ->  pair = e; a = pair[0] ...  only for calls"""
    k = 0

    def visit_Assign(self, s):
        if len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Call) and \
                all(isinstance(t, ast.Name) for t in s.targets[0].elts) and isinstance(s.value.func, (ast.Name, ast.Attribute)):
            self.k += 1
            n = "pair_%d" % self.k
            return [ast.Assign(targets=[ast.Name(n, ast.Store())], value=s.value),
                    ast.Assign(targets=s.targets, value=ast.Name(n, ast.Load()))]
        return s


class IfElseExpr(ast.NodeTransformer):
    """x = a if c else b  ->  if c: x = a else: x = b;  return a if c else b likewise"""

    def visit_Assign(self, s):
        v = s.value
        if isinstance(v, ast.IfExp):
            return ast.If(v.test, [ast.Assign(targets=s.targets, value=v.body)], [ast.Assign(targets=copy.deepcopy(s.targets), value=v.orelse)])
        return s

    def visit_Return(self, s):
        v = s.value
        if isinstance(v, ast.IfExp):
            return ast.If(v.test, [ast.Return(v.body)], [ast.Return(v.orelse)])
        return s


class Helper(ast.NodeTransformer):
    """The last statements of a long method that read locals and set nothing afterwards used become a helper method."""

    def visit_ClassDef(self, c):
        new = []
        for f in c.body:
            if isinstance(f, ast.FunctionDef) and not f.decorator_list and f.args.args and f.args.args[0].arg == "self" and \
                    not f.args.vararg and not f.args.kwarg and len(f.body) >= 4 and not any(
                        isinstance(n, FUNC + (ast.ClassDef, ast.Lambda, ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global)) for n in ast.walk(f) if n is not f) and \
                    not any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("super", "locals") for n in ast.walk(f)):
                cut = len(f.body) // 2
                head, tail = f.body[:cut], f.body[cut:]
                if any(isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) for s in tail):
                    continue
                loc = locals_of(f) | {a.arg for a in f.args.args}
                definite = {a.arg for a in f.args.args}
                for s in head:
                    if isinstance(s, ast.Assign):
                        definite |= {x.id for t in s.targets for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                reads = {n.id for s in tail for n in ast.walk(s) if isinstance(n, ast.Name)} & loc
                assigned_head = {n.id for s in head for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {a.arg for a in f.args.args}
                need = reads & assigned_head
                if not need <= definite:
                    continue
                args = sorted(need - {"self"})
                name = "_rest_%s_of%s" % (c.name.lower(), f.name)
                f.body = head + [ast.Return(ast.Call(ast.Attribute(ast.Name("self", ast.Load()), name, ast.Load()), [ast.Name(a, ast.Load()) for a in args], []))]
                new.append(ast.FunctionDef(name=name, args=ast.arguments(posonlyargs=[], args=[ast.arg("self")] + [ast.arg(a) for a in args], kwonlyargs=[],
                                                                          kw_defaults=[], defaults=[]), body=tail, decorator_list=[], type_params=[]))
        c.body = c.body + new
        return c


class Unparse(ast.NodeTransformer):
    """Formatting and comments only"""


class Dead(ast.NodeTransformer):
    """A statement without effect and a log line at the start of every function"""

    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        i = 1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
        f.body.insert(i, ast.Assign(targets=[ast.Name("unused_local_", ast.Store())], value=ast.Constant(0)))
        return f


class Reorder(ast.NodeTransformer):
    """Neighbouring assignments of constants to different names or attributes of self are exchanged; methods are reversed."""

    def visit_ClassDef(self, c):
        self.generic_visit(c)
        if not any(isinstance(f, FUNC) and any("setter" in ast.dump(d) for d in f.decorator_list) for f in c.body) and \
                len({f.name for f in c.body if isinstance(f, FUNC)}) == sum(isinstance(f, FUNC) for f in c.body):
            fs = [f for f in c.body if isinstance(f, FUNC)]
            if not any(isinstance(x, ast.Name) and x.id in {g.name for g in fs} for s in c.body if not isinstance(s, FUNC) for x in ast.walk(s)):
                it = iter(reversed(fs))
                c.body = [next(it) if isinstance(s, FUNC) else s for s in c.body]
        return c

    def visit_FunctionDef(self, f):
        for i in range(len(f.body) - 1):
            a, b = f.body[i:i + 2]
            if all(isinstance(x, ast.Assign) and isinstance(x.value, ast.Constant) and len(x.targets) == 1 and isinstance(x.targets[0], (ast.Name, ast.Attribute))
                   for x in (a, b)) and ast.dump(a.targets[0]) != ast.dump(b.targets[0]):
                f.body[i], f.body[i + 1] = b, a
        return f


class WhileLoop(ast.NodeTransformer):
    """for x in range(n) -> index loop"""
    k = 0

    def visit_For(self, s):
        self.generic_visit(s)
        if isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range" and len(s.iter.args) == 1 and not s.orelse and \
                isinstance(s.target, ast.Name) and not any(isinstance(n, ast.Continue) for b in s.body for n in ast.walk(b)) and \
                not any(isinstance(n, ast.Name) and n.id == s.target.id and isinstance(n.ctx, ast.Store) for b in s.body for n in ast.walk(b)):
            self.k += 1
            n = "end_%d" % self.k
            i = "pos_%d" % self.k
            return [ast.Assign(targets=[ast.Name(n, ast.Store())], value=s.iter.args[0]),
                    ast.Assign(targets=[ast.Name(i, ast.Store())], value=ast.Constant(0)),
                    ast.While(ast.Compare(ast.Name(i, ast.Load()), [ast.Lt()], [ast.Name(n, ast.Load())]),
                              [ast.Assign(targets=[s.target], value=ast.Name(i, ast.Load()))] + s.body +
                              [ast.AugAssign(ast.Name(i, ast.Store()), ast.Add(), ast.Constant(1))], [])]
        return s


class Enumerate(ast.NodeTransformer):
    """for x in c -> for _i, x in enumerate(c) for plain names and attributes"""

    def visit_For(self, s):
        self.generic_visit(s)
        if isinstance(s.iter, (ast.Name, ast.Attribute)):
            s.iter = ast.Call(ast.Name("enumerate", ast.Load()), [s.iter], [])
            s.target = ast.Tuple([ast.Name("_pos", ast.Store()), s.target], ast.Store())
        return s


class Kwargs(ast.NodeTransformer):
    """Positional arguments of calls of own methods become keyword arguments (names known from unique definitions)."""
    sigs = {}

    def visit_Call(self, e):
        self.generic_visit(e)
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id == "self" and e.args and \
                not any(isinstance(a, ast.Starred) for a in e.args):
            sig = self.sigs.get(e.func.attr)
            if sig and len(e.args) <= len(sig) and not ({k.arg for k in e.keywords} & set(sig[:len(e.args)])):
                e.keywords = [ast.keyword(n, a) for n, a in zip(sig, e.args)] + e.keywords
                e.args = []
        return e


def tests_text():
    out = []
    for r, _, fs in os.walk(REPO + "/tests"):
        for f in fs:
            if f.endswith(".py"):
                out.append(open(os.path.join(r, f), errors="replace").read())
    return "\n".join(out)


class PrivRename(ast.NodeTransformer):
    """private methods, attributes and parameters of private methods get other names"""
    names = set()

    @classmethod
    def prepare(cls, trees):
        text = tests_text() + "\n".join(n.value for t in trees for n in ast.walk(t) if isinstance(n, ast.Constant) and isinstance(n.value, str))
        meth, stored = {}, set()
        for t in trees:
            for n in ast.walk(t):
                if isinstance(n, FUNC):
                    meth.setdefault(n.name, []).append(n)
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    stored.add(n.attr)
        glob = {a.name for t in trees for n in ast.walk(t) if isinstance(n, ast.ImportFrom) for a in n.names}
        cls.names = {x for x in set(meth) | stored if x.startswith("_") and not x.startswith("__") and x not in text and x not in glob}
        tops = {n.name for t in trees for n in t.body if isinstance(n, FUNC)}
        cls.names -= tops

    def visit_FunctionDef(self, f):
        if f.name in self.names:
            ps = [a.arg for a in f.args.args]
            if not any(isinstance(n, FUNC + (ast.Lambda,)) for n in ast.walk(f) if n is not f):
                ren = {p: p + "_arg" for p in ps if p not in ("self", "cls")}
                for n in ast.walk(f):
                    if isinstance(n, ast.Name) and n.id in ren:
                        n.id = ren[n.id]
                    elif isinstance(n, ast.arg) and n.arg in ren:
                        n.arg = ren[n.arg]
                PrivRename.kw[f.name] = ren
            f.name = self.new(f.name)
        self.generic_visit(f)
        return f
    kw = {}

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if n.attr in self.names:
            n.attr = self.new(n.attr)
        return n

    suffix = "_impl"

    @classmethod
    def new(cls, name):
        return name + cls.suffix if cls.suffix else "_q%d" % (sorted(cls.names).index(name) * 7919 % 1009)

    @classmethod
    def finish(cls, trees):
        for t in trees:
            for n in ast.walk(t):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in {cls.new(x) for x in cls.kw}:
                    for k in n.keywords:
                        k.arg = {cls.new(x): v for x, v in cls.kw.items()}[n.func.attr].get(k.arg, k.arg)


class PrivNumber(PrivRename):
    """the same with names that have nothing in common with the old ones"""
    suffix = None


class ContGuard(ast.NodeTransformer):
    """for x in c: if cond: body  ->  if not cond: continue; body"""

    def visit_For(self, s):
        self.generic_visit(s)
        if len(s.body) == 1 and isinstance(s.body[0], ast.If) and not s.body[0].orelse:
            i = s.body[0]
            s.body = [ast.If(ast.UnaryOp(ast.Not(), i.test), [ast.Continue()], [])] + i.body
        return s


class LoopBody(ast.NodeTransformer):
    """The body of a loop over a collection becomes a method"""

    def visit_ClassDef(self, c):
        new = []
        for f in c.body:
            if isinstance(f, ast.FunctionDef) and not f.decorator_list and f.args.args and f.args.args[0].arg == "self" and \
                    not any(isinstance(n, FUNC + (ast.ClassDef, ast.Lambda, ast.Nonlocal, ast.Global)) for n in ast.walk(f) if n is not f):
                self.k = 0
                self.loops(f, f, c, new)
        c.body = c.body + new
        return c

    def loops(self, node, f, c, new):
        gone = set()
        for s in ast.walk(node):
            if id(s) in gone:
                continue
            if isinstance(s, ast.For) and not any(isinstance(n, (ast.Break, ast.Return, ast.Yield, ast.YieldFrom)) for b in s.body for n in ast.walk(b)) and not s.orelse:
                if any(isinstance(n, ast.Continue) for b in s.body for n in ast.walk(b)) or any(isinstance(n, ast.Name) and n.id == "super" for n in ast.walk(s)):
                    continue
                stored = {n.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)}
                outside = {n.id for n in ast.walk(f) if isinstance(n, ast.Name)} - set()
                inside_ids = {id(n) for b in s.body for n in ast.walk(b)}
                if any(isinstance(n, ast.Name) and n.id in stored and id(n) not in inside_ids for n in ast.walk(f)) or stored & {a.arg for a in f.args.args}:
                    continue
                loc = (locals_of(f) | {a.arg for a in f.args.args}) - stored
                comp = {n.id for x in ast.walk(f) if isinstance(x, ast.comprehension) for n in ast.walk(x.target) if isinstance(n, ast.Name)}
                reads = {n.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name)} & loc
                # stored before read within one round
                definite = set()
                ok = True
                for b in s.body:
                    if {n.id for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)} & (stored - definite - comp):
                        inner = {n.id for n in ast.walk(b) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)}
                        if not isinstance(b, ast.For) or any(x in stored - definite - inner for x in
                                                             {n.id for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}):
                            ok = False
                    if isinstance(b, ast.Assign):
                        definite |= {n.id for t in b.targets for n in ast.walk(t) if isinstance(n, ast.Name)}
                if not ok or reads & comp:
                    continue
                # every local read has to be set for sure: parameters, loop variable or a plain assignment at the top of the function
                sure = {a.arg for a in f.args.args} | {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
                for b in f.body:
                    if b is s or any(x is s for x in ast.walk(b)):
                        break
                    if isinstance(b, ast.Assign):
                        sure |= {n.id for t in b.targets for n in ast.walk(t) if isinstance(n, ast.Name)}
                if not reads <= sure:
                    continue
                args = sorted(reads - {"self"})
                self.k += 1
                name = "_step_%s_%s_%d" % (c.name.lower(), f.name.strip("_"), self.k)
                body = s.body
                gone |= {id(n) for b in body for n in ast.walk(b)}
                s.body = [ast.Expr(ast.Call(ast.Attribute(ast.Name("self", ast.Load()), name, ast.Load()), [ast.Name(a, ast.Load()) for a in args], []))]
                new.append(ast.FunctionDef(name=name, args=ast.arguments(posonlyargs=[], args=[ast.arg("self")] + [ast.arg(a) for a in args], kwonlyargs=[],
                                                                          kw_defaults=[], defaults=[]), body=body, decorator_list=[], type_params=[]))


class CondHelper(ast.NodeTransformer):
    """conditions over self and names become predicate methods, returned expressions module functions"""

    def visit_Module(self, m):
        self.top = []
        self.generic_visit(m)
        m.body += self.top
        return m

    def visit_ClassDef(self, c):
        self.c, self.new, self.k = c, [], 0
        for f in c.body:
            if isinstance(f, ast.FunctionDef) and not f.decorator_list and f.args.args and f.args.args[0].arg == "self" and \
                    not any(isinstance(n, FUNC + (ast.ClassDef, ast.Lambda, ast.Nonlocal, ast.Global)) for n in ast.walk(f) if n is not f):
                loc = locals_of(f) | {a.arg for a in f.args.args}
                for s in ast.walk(f):
                    if isinstance(s, ast.If) and isinstance(s.test, (ast.Compare, ast.BoolOp)) and not any(
                            isinstance(n, (ast.comprehension, ast.Yield)) or isinstance(n, ast.Name) and n.id == "super" for n in ast.walk(s.test)):
                        a = sorted(({n.id for n in ast.walk(s.test) if isinstance(n, ast.Name)} & loc) - {"self"})
                        self.k += 1
                        if self.k % 2:
                            name = "_holds_%s_%s_%d" % (c.name.lower(), f.name.strip("_"), self.k)
                            self.new.append(ast.FunctionDef(name=name, args=ast.arguments(posonlyargs=[], args=[ast.arg("self")] + [ast.arg(x) for x in a], kwonlyargs=[],
                                                            kw_defaults=[], defaults=[]), body=[ast.Return(s.test)], decorator_list=[], type_params=[]))
                            s.test = ast.Call(ast.Attribute(ast.Name("self", ast.Load()), name, ast.Load()), [ast.Name(x, ast.Load()) for x in a], [])
                    elif isinstance(s, ast.Return) and isinstance(s.value, (ast.BinOp, ast.Call, ast.Compare)) and not any(
                            isinstance(n, (ast.comprehension, ast.Yield)) or isinstance(n, ast.Name) and n.id == "super" for n in ast.walk(s.value)):
                        a = sorted({n.id for n in ast.walk(s.value) if isinstance(n, ast.Name)} & loc)
                        self.k += 1
                        name = "_value_%s_%s_%d" % (c.name.lower(), f.name.strip("_"), self.k)
                        self.top.append(ast.FunctionDef(name=name, args=ast.arguments(posonlyargs=[], args=[ast.arg(x + "_" if x == "self" else x) for x in a], kwonlyargs=[],
                                                        kw_defaults=[], defaults=[]), decorator_list=[], type_params=[],
                                                        body=[ast.Assign([ast.Name("answer", ast.Store())], self.ren(s.value)), ast.Return(ast.Name("answer", ast.Load()))]))
                        s.value = ast.Call(ast.Name(name, ast.Load()), [ast.Name(x, ast.Load()) for x in a], [])
        c.body = c.body + self.new
        return c

    @staticmethod
    def ren(e):
        e = copy.deepcopy(e)
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and n.id == "self":
                n.id = "self_"
        return e


class SetDictComp(ast.NodeTransformer):
    """x = {e for a in c}, x = {k: v for a in c}  ->  loops"""

    def visit_FunctionDef(self, f):
        self.f = f
        self.generic_visit(f)
        return f

    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, (ast.SetComp, ast.DictComp)) and \
                    len(s.value.generators) == 1 and not any(isinstance(n, ast.Name) and n.id == s.targets[0].id for n in ast.walk(s.value)):
                v, t = s.value, s.targets[0].id
                g = v.generators[0]
                names = {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
                cnt = sum(1 for n in ast.walk(self.f) if isinstance(n, ast.Name) and n.id in names) - sum(1 for n in ast.walk(v) if isinstance(n, ast.Name) and n.id in names)
                if cnt == 0 and not names & {a.arg for a in self.f.args.args}:
                    if isinstance(v, ast.SetComp):
                        out.append(ast.Assign([ast.Name(t, ast.Store())], ast.Call(ast.Name("set", ast.Load()), [], [])))
                        st = ast.Expr(ast.Call(ast.Attribute(ast.Name(t, ast.Load()), "add", ast.Load()), [v.elt], []))
                    else:
                        out.append(ast.Assign([ast.Name(t, ast.Store())], ast.Dict([], [])))
                        st = ast.Assign([ast.Subscript(ast.Name(t, ast.Load()), v.key, ast.Store())], v.value)
                    for i in reversed(g.ifs):
                        st = ast.If(i, [st], [])
                    out.append(ast.For(g.target, g.iter, [st], []))
                    continue
            out.append(s)
        return out

    def generic_visit(self, n):
        super().generic_visit(n)
        for fld in ("body", "orelse", "finalbody"):
            if isinstance(getattr(n, fld, None), list) and hasattr(self, "f"):
                setattr(n, fld, self.block(getattr(n, fld)))
        return n


class IfExpStmt(ast.NodeTransformer):
    """x = a if c else b, return a if c else b  ->  if statement; a < b < c -> a < b and b < c"""

    def visit_Assign(self, s):
        self.generic_visit(s)
        if isinstance(s.value, ast.IfExp):
            v = s.value
            return ast.If(v.test, [ast.Assign(s.targets, v.body)], [ast.Assign(copy.deepcopy(s.targets), v.orelse)])
        return s

    def visit_Return(self, s):
        self.generic_visit(s)
        if isinstance(s.value, ast.IfExp):
            v = s.value
            return ast.If(v.test, [ast.Return(v.body)], [ast.Return(v.orelse)])
        return s

    def visit_Lambda(self, n):
        return n

    def visit_Compare(self, e):
        self.generic_visit(e)
        if len(e.ops) == 2 and isinstance(e.comparators[0], (ast.Name, ast.Attribute)):
            m = e.comparators[0]
            return ast.BoolOp(ast.And(), [ast.Compare(e.left, e.ops[:1], [m]), ast.Compare(copy.deepcopy(m), e.ops[1:], e.comparators[1:])])
        if len(e.ops) == 1 and isinstance(e.ops[0], ast.In) and isinstance(e.comparators[0], (ast.Tuple, ast.List)) and isinstance(e.left, ast.Name) and e.comparators[0].elts:
            return ast.BoolOp(ast.Or(), [ast.Compare(copy.deepcopy(e.left), [ast.Eq()], [x]) for x in e.comparators[0].elts]) if len(e.comparators[0].elts) > 1 else e
        return e


class Unroll(ast.NodeTransformer):
    """a loop over a short display of names or constants is written out"""

    def visit_FunctionDef(self, f):
        self.f = f
        self.generic_visit(f)
        return f

    def visit_For(self, s):
        self.generic_visit(s)
        if hasattr(self, "f") and isinstance(s.iter, (ast.Tuple, ast.List)) and 1 < len(s.iter.elts) <= 3 and all(isinstance(x, (ast.Name, ast.Constant)) for x in s.iter.elts) and \
                isinstance(s.target, ast.Name) and not s.orelse and not any(isinstance(n, (ast.Break, ast.Continue)) for b in s.body for n in ast.walk(b)):
            out = []
            for x in s.iter.elts:
                out.append(ast.Assign([ast.Name(s.target.id, ast.Store())], x))
                out += [copy.deepcopy(b) for b in s.body]
            return out
        return s


class SelfAlias(ast.NodeTransformer):
    """containers and options held by self are read through a local"""

    @classmethod
    def prepare(cls, trees):
        cls.stored = {}
        for t in trees:
            for n in ast.walk(t):
                if isinstance(n, FUNC):
                    for x in ast.walk(n):
                        if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                            cls.stored.setdefault(x.attr, set()).add(n.name)
        cls.props = {n.name for t in trees for n in ast.walk(t) if isinstance(n, FUNC)}

    def visit_ClassDef(self, c):
        own = {x.attr for f in c.body if isinstance(f, FUNC) and f.name == "__init__" for x in ast.walk(f) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)
               and isinstance(x.value, ast.Name) and x.value.id == "self"}
        for f in c.body:
            if isinstance(f, ast.FunctionDef) and f.name != "__init__" and f.args.args and f.args.args[0].arg == "self" and not f.decorator_list and \
                    not any(isinstance(n, FUNC + (ast.Lambda, ast.ClassDef, ast.Yield, ast.YieldFrom)) for n in ast.walk(f) if n is not f):
                names = locals_of(f) | {a.arg for a in f.args.args} | {n.id for n in ast.walk(f) if isinstance(n, ast.Name)}
                use = {}
                for n in ast.walk(f):
                    if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self" and isinstance(n.ctx, ast.Load):
                        use.setdefault(n.attr, []).append(n)
                pre = []
                for a in sorted(use):
                    if a in own and self.stored.get(a) == {"__init__"} and a not in self.props and a not in names and len(use[a]) > 1:
                        class R(ast.NodeTransformer):
                            def visit_Attribute(self, n):
                                self.generic_visit(n)
                                if n.attr == a and isinstance(n.value, ast.Name) and n.value.id == "self" and isinstance(n.ctx, ast.Load):
                                    return ast.Name(a, ast.Load())
                                return n
                        f.body = [R().visit(s) for s in f.body]
                        pre.append(ast.Assign([ast.Name(a, ast.Store())], ast.Attribute(ast.Name("self", ast.Load()), a, ast.Load())))
                i = 1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
                f.body[i:i] = pre
        return c


class FString(ast.NodeTransformer):
    """'..{}..'.format(a)  ->  f-string"""

    def visit_Call(self, e):
        self.generic_visit(e)
        if isinstance(e.func, ast.Attribute) and e.func.attr == "format" and isinstance(e.func.value, ast.Constant) and isinstance(e.func.value.value, str) and not e.keywords:
            import string
            try:
                parts = list(string.Formatter().parse(e.func.value.value))
            except ValueError:
                return e
            if any(p[1] not in (None, "") or p[3] for p in parts if p[1] is not None) or sum(p[1] is not None for p in parts) != len(e.args):
                return e
            if any("{" in (p[2] or "") for p in parts) or any(isinstance(a, ast.Starred) for a in e.args):
                return e
            vals, it = [], iter(e.args)
            for lit, name, spec, conv in parts:
                if lit:
                    vals.append(ast.Constant(lit))
                if name is not None:
                    vals.append(ast.FormattedValue(next(it), -1, ast.JoinedStr([ast.Constant(spec)]) if spec else None))
            return ast.JoinedStr(vals)
        return e


ALL = [Unparse, Dead, Rename, RetTemp, Invert, Guard, Flip, Temps, CondTemp, CompLoop, Comm, AugPlain, NotIn, AndIf, SplitTuple, IfElseExpr, Helper,
       Reorder, WhileLoop, Enumerate, Kwargs, PrivRename, PrivNumber, ContGuard, LoopBody, CondHelper, SetDictComp, IfExpStmt, Unroll, SelfAlias, FString]


def collect_sigs(trees):
    seen = {}
    for t in trees:
        for c in ast.walk(t):
            if isinstance(c, ast.ClassDef):
                for f in c.body:
                    if isinstance(f, ast.FunctionDef) and not f.decorator_list and not f.args.vararg and not f.args.posonlyargs:
                        seen.setdefault(f.name, []).append([a.arg for a in f.args.args[1:]])
                    elif isinstance(f, FUNC):
                        seen.setdefault(f.name, []).append(None)
    return {n: s[0] for n, s in seen.items() if len(s) == 1 and s[0]}


def make(t, only=None, base=None):
    d = tempfile.mkdtemp(prefix="ref.")
    shutil.copytree((base or REPO) + "/src", d + "/src", ignore=shutil.ignore_patterns("__pycache__", "*.egg-info"))
    files = []
    for r, _, fs in os.walk(d + "/src"):
        for f in fs:
            if f.endswith(".py"):
                files.append(os.path.join(r, f))
    trees = {f: ast.parse(open(f).read()) for f in files}
    Kwargs.sigs = collect_sigs(trees.values())
    if hasattr(t, "prepare"):
        t.prepare(list(trees.values()))
    for f in files:
        if only and not f.endswith(only):
            continue
        trees[f] = t().visit(trees[f])
    if hasattr(t, "finish"):
        t.finish(list(trees.values()))
    for f in files:
        if only and not f.endswith(only):
            continue
        tr = trees[f]
        ast.fix_missing_locations(tr)
        s = ast.unparse(tr) + "\n"
        compile(s, f, "exec")
        open(f, "w").write(s)
    return d


def check(job):
    d, p = job
    env = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + "/ev")
    r = subprocess.run([sys.executable, os.path.join(HERE, "..", "check.py"), p], env=env, capture_output=True, text=True)
    return p, r.returncode, (r.stdout[-3000:] + r.stderr[-1200:])


def main():
    a = sys.argv[1:]
    only, ts, keep, chain = None, None, False, []
    while a and a[0].startswith("-"):
        if a[0] == "-f":
            only = a[1]
            a = a[2:]
        elif a[0] == "-t":
            ts = a[1].split(",")
            a = a[2:]
        elif a[0] == "-c":      # one composed rewrite
            ts, chain = a[1].split(",")[:1], a[1].split(",")[1:]
            a = a[2:]
        elif a[0] == "-k":
            keep = True
            a = a[1:]
    props = a or sorted(f[:-3].upper() for f in os.listdir(HERE + "/../sa/rules") if f.startswith("p") and f[1:3].isdigit())
    bad = 0
    for t in ALL:
        if ts and t.__name__ not in ts:
            continue
        d = make(t, only)
        for name in chain:
            d2 = make([x for x in ALL if x.__name__ == name][0], only, d)
            shutil.rmtree(d)
            d = d2
        try:
            with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("JOBS", "6"))) as ex:
                for p, rc, out in ex.map(check, [(d, p) for p in props]):
                    if rc:
                        bad += 1
                        print("FAIL", t.__name__, p, rc)
                        for line in [x for x in out.splitlines() if not x.startswith("KNOWN")][-8:]:
                            print("     ", line.replace(d, "")[:260])
            print("done", t.__name__, flush=True)
        finally:
            if keep:
                print("kept", d)
            else:
                shutil.rmtree(d)
    print("%d failing" % bad)


main()
