"""P27: unknown or ill-typed mesh options are rejected."""
import ast
from ..loader import AnalysisError
from ..tok import T, Tok, NONE, subtoks, is_const, cval, const, show
from ..rl import fname, where, canon, flat

LEVEL = "other"
TECHNIQUE = "path-condition analysis of the option setter and typestate of option classes"
EXPLANATION = ("Every abstract path of the option setter that reaches the mesher has to be guarded by the declaration of the key and by the "
               "type test of its setter, and passes the value once under the prefixed declared name; declarations record the name and "
               "type and pass defaults; constructors of the option classes declare between the base constructor and finish_init.")
MOD = "bgem.gmsh.options"
OB = MOD + ".OptionsBase"
API = "gmsh.option.set"
NUM = {"builtins.int", "builtins.float", "builtins.bool"}


def run(ctx):
    ctx.rule("declared", "nothing is passed for an option that was not declared")
    ctx.rule("typed", "nothing is passed unless the value fits the declared type and the setter")
    ctx.rule("once", "a valid value is passed once under the prefixed name")
    ctx.rule("declare", "a declaration records name and type, a default is passed at once")
    ctx.rule("dispatch", "assignments declare before finish_init and set afterwards")
    ctx.rule("class", "option classes declare between the base constructor and finish_init")
    setter(ctx)
    add(ctx)
    dispatch(ctx)
    classes(ctx)


def conds(o, until=None):
    """Conditions decided on the path (before the event)."""
    out = []
    for e in o.events():
        if e is until:
            break
        if e.kind == "cond" and e.recv is not None:
            out.append((canon(e.recv), bool(e.name)))
    return out


def names(t):
    return {s.args[0] if isinstance(s.args[0], str) else None for s in subtoks(t) if s.op in ("ext", "builtin", "cls", "const") and s.args}


def classnames(t):
    """Names of the classes in a class or tuple/set of classes."""
    out = set()
    for s in subtoks(t):
        for n in ("int", "float", "bool", "str"):
            if s.op in ("ext", "builtin", "cls") and s.args and str(s.args[0]).split(".")[-1] == n:
                out.add(n)
            if s.op == "const" and cval(s) in (int, float, bool, str) and getattr(cval(s), "__name__", "") == n:
                out.add(n)
        if s.op in ("ext", "cls") and str(s.args[0]).endswith("Enum"):
            out.add("Enum")
    return out


def value_kinds(cs, val):
    """Kinds of the value implied by the isinstance conditions, None if none."""
    out = None
    for c, v in cs:
        if c.op == "isinst" and canon(c.args[0]) is val and v:
            k = classnames(c.args[1])
            out = k if out is None else out & k
        if v and c.op == "op" and c.args[0] in ("in", "is", "==") and len(c.args) == 3 and c.args[1].op == "typeof" and canon(c.args[1].args[0]) is val:
            k = classnames(c.args[2])
            out = k if out is None else out & k
    return out


def type_kinds(cs, is_type):
    """Declared types implied by the conditions (alternatives on one path are separate paths)."""
    out = None
    for c, v in cs:
        k = None
        if not v:
            continue
        if c.op == "op" and c.args[0] in ("in", "is", "==") and len(c.args) == 3 and (is_type(c.args[1]) or is_type(c.args[2])):
            k = classnames(c.args[2] if is_type(c.args[1]) else c.args[1])
        if c.op in ("call", "pcall") and c.args[0] == "builtins.issubclass" and is_type(c.args[1]):
            k = classnames(c.args[2])
        if k is not None:
            out = k if out is None else out & k
    return out


def setter(ctx):
    f = ctx.prog.func(OB + ".instance_setattr")
    q = fname(f)
    p = f.pos_params()
    key, val = T("param", p[1]), T("param", p[2])
    n = 0
    for o in ctx.run(f, keep_conds=True):
        ev = [e for e, l in flat(o.events())]
        sets = [e for e in ev if e.kind == "call" and e.name.startswith(API)]
        cs = conds(o)
        entry = lambda t: t.op == "item" and any(s.op == "attr" and s.args[1] == "names_map" for s in subtoks(t)) and \
            any(s is key for s in subtoks(t))
        is_type = lambda t: entry(t) and (t.op == "item" and is_const(t.args[1]) and cval(t.args[1]) == 1)
        for i, e in enumerate(sets):
            ctx.saw("setter calls", q + ":" + e.name)
            cs = conds(o, e)
            declared = any(c.op == "op" and c.args[0] == "in" and v and c.args[1] is key and names_map(c.args[2]) or
                           c.op == "op" and c.args[0] == "not in" and not v and c.args[1] is key and names_map(c.args[2]) or
                           c.op == "op" and c.args[0] == "is" and not v and NONE in c.args and any(names_map(s) for s in subtoks(c)) for c, v in cs) \
                or any(item_lookup(a, key) for a in e.args) and not any(s.op in ("call", "pcall") and s.args[0] in (".get",)
                                                                         for a in e.args for s in subtoks(a))
            ctx.check(declared, "declared", q, "a value is passed to the mesher though the option was not declared", where(e), key=q)
            kinds = value_kinds(cs, val)
            tk = type_kinds(cs, is_type)
            kind = e.name[len(API):]
            want_v = {"int", "float", "bool"} if kind == "Number" else {"str"} if kind == "String" else set()
            want_t = want_v | {"Enum"} if kind == "Number" else want_v
            ctx.check(kinds is not None and kinds <= want_v, "typed", q + ":" + kind, "set%s is reached with values of other types" % kind, where(e),
                      key=q + ":" + kind + ":value")
            ctx.check(tk is not None and tk <= want_t, "typed", q + ":" + kind, "set%s is reached for options declared with another type" % kind,
                      where(e), key=q + ":" + kind + ":type")
            a = [canon(x) for x in e.args]
            ctx.check(len(a) > 1 and (a[1] is val or a[1].op in ("call", "pcall") and val in a[1].args), "once", q + ":" + kind,
                      "the value passed is not the one given", where(e), key=q + ":" + kind + ":value")
            ctx.check(fullname(a[0], key), "once", q + ":" + kind, "the value is not passed under the prefix and declared name of the option: %s"
                      % show(a[0]), where(e), key=q + ":" + kind + ":name")
            n += 1
        ctx.check(len(sets) <= 1, "once", q, "a value is passed more than once", f.loc(f.node), key=q + ":twice")
        if o.flow != "raise":
            ctx.check(len(sets) == 1, "once", q, "a path accepts the value without passing it to the mesher", f.loc(f.node), key=q + ":lost")
    if not n:
        raise AnalysisError("no call of the mesher's option setters found")
    ctx.expect("setter calls", 2)


def names_map(t):
    return t.op == "attr" and t.args[1] == "names_map" or t.op == "keys" and names_map(t.args[0]) or t.op == "atver" and names_map(t.args[0])


def item_lookup(t, key):
    return any(s.op == "item" and names_map(s.args[0]) and s.args[1] is key for s in subtoks(t))


def fullname(t, key):
    """prefix + declared name"""
    parts = []
    def go(x):
        if x.op == "op" and x.args[0] == "+":
            for a in x.args[1:]:
                go(a)
        elif x.op == "fstr":
            for a in x.args:
                if isinstance(a, Tok):
                    go(a)
        elif x.op in ("call", "pcall") and x.args[0] in (".format", ".join"):
            parts.append(T("unknown", 0))
            parts.extend(a for a in x.args[1:])
        elif x.op in ("fmt", "formatted") and x.args:
            go(x.args[0])
        else:
            parts.append(x)
    go(t)
    subs = [p for p in parts if not (is_const(p) and cval(p) == "")]
    pre = [i for i, p in enumerate(subs) if p.op == "attr" and p.args[1] == "prefix"]
    nam = [i for i, p in enumerate(subs) if p is key or p.op == "item" and item_lookup(p, key)
           and (is_const(p.args[1]) and cval(p.args[1]) == 0 or p.args[1] is key)]
    if any(p.op == "unknown" for p in subs):
        return bool(pre and nam)
    return len(pre) == 1 and len(nam) == 1 and pre[0] < nam[0] and len(subs) == 2


def add(ctx):
    f = ctx.prog.func(OB + "._add")
    q = fname(f)
    p = f.pos_params()
    name, dflt = T("param", p[1]), T("param", p[2])
    pol = lambda g: "opaque" if getattr(g, "qual", "") == OB + ".instance_setattr" else None
    n = 0
    for o in ctx.run(f, keep_conds=True, policy=pol):
        if o.flow == "raise":
            continue
        n += 1
        cs = conds(o)
        istype = [v for c, v in cs if c.op == "isinst" and canon(c.args[0]) is dflt and any(str(s.args[0]).split(".")[-1] == "type" for s in
                                                                                           subtoks(c.args[1]) if s.op in ("ext", "builtin", "cls"))]
        recs = [e for e in o.events() if e.kind == "setitem" and names_map(canon(e.recv))]
        calls = [e for e in o.events() if e.kind == "call" and e.name == OB + ".instance_setattr"]
        ctx.check(recs and canon(recs[-1].args[0]) is name, "declare", q, "a declaration does not record the option under its name", f.loc(f.node),
                  key=q + ":name")
        if not recs:
            continue
        v = canon(recs[-1].args[1])
        it = v.args if v.op == "tuple" else ()
        ctx.check(len(it) == 2 and it[0] is name, "declare", q, "the recorded name is not the declared one", where(recs[-1]), key=q + ":entry")
        if len(it) == 2 and istype:
            want = dflt if istype[-1] else T("typeof", dflt)
            ctx.check(it[1] is want or not istype[-1] and it[1].op in ("call", "attr") and dflt in it[1].args, "declare", q,
                      "the recorded type is not %s" % ("the declared type" if istype[-1] else "the type of the default"), where(recs[-1]), key=q + ":type")
            ok = not calls if istype[-1] else len(calls) == 1
            ctx.check(ok, "declare", q, "a default value is not passed to the mesher" if not istype[-1] else "a type is passed as a value",
                      f.loc(f.node), key=q + ":default")
            for e in calls:
                a = [canon(x) for x in e.args][-2:]
                ctx.check(a == [name, dflt], "declare", q, "the default is passed to another option", where(e), key=q + ":passed")
                ctx.check(o.events().index(e) > o.events().index(recs[-1]), "declare", q, "the default is passed before the option is declared", where(e),
                          key=q + ":order")
    if not n:
        raise AnalysisError("no path of _add")


def bound_name(t):
    if t.op == "bound":
        return t.args[-1].split(".")[-1] if isinstance(t.args[-1], str) else None
    if t.op == "attr":
        return t.args[1]
    return None


def dispatch(ctx):
    want = {"__init__": "init_setattr", "finish_init": "instance_setattr"}
    for n, w in want.items():
        f = ctx.prog.func(OB + "." + n)
        for o in ctx.run(f, keep_conds=True):
            if o.flow == "raise":
                continue
            got = None
            for e in o.events():
                a = list(e.args or ())
                if e.kind == "write" and e.name == "_sa":
                    got = canon(a[0])
                elif e.kind == "call" and e.name.endswith("__setattr__") and len(a) > 1:
                    for i, x in enumerate(a):
                        if is_const(x) and cval(x) == "_sa" and i + 1 < len(a):
                            got = canon(a[i + 1])
            ctx.check(got is not None and bound_name(got) == w, "dispatch", fname(f), "assignments are not %s after %s" % (
                "declarations" if n == "__init__" else "checked", n), f.loc(f.node), key=fname(f))
    f = ctx.prog.func(OB + ".__setattr__")
    p = f.pos_params()
    for o in ctx.run(f, keep_conds=True):
        if o.flow == "raise":
            continue
        cl = [e for e in o.events() if e.kind in ("call", "dyn") and ("_sa" in e.name or e.recv is not None and e.recv.op == "attr" and
                                                                      e.recv.args[1] == "_sa")]
        ok = len(cl) == 1 and [canon(x) for x in cl[0].args][-2:] == [T("param", p[1]), T("param", p[2])]
        ctx.check(ok, "dispatch", fname(f), "an assignment does not go through the current setter", f.loc(f.node), key=fname(f))
    f = ctx.prog.func(OB + ".init_setattr")
    pol = lambda g: "opaque" if getattr(g, "qual", "") == OB + "._add" else None
    p = f.pos_params()
    for o in ctx.run(f, keep_conds=True, policy=pol):
        if o.flow == "raise":
            continue
        cl = [e for e in o.events() if e.kind == "call" and e.name == OB + "._add"]
        ok = len(cl) == 1 and [canon(x) for x in cl[0].args][-2:] == [T("param", p[1]), T("param", p[2])]
        ctx.check(ok, "dispatch", fname(f), "an assignment in a constructor does not declare the option with its default", f.loc(f.node), key=fname(f))


def classes(ctx):
    base = ctx.prog.cls(OB)
    n = 0
    for c in ctx.prog.classes.values():
        if c.qual == OB or base not in ctx.prog.mro(c)[0]:
            continue
        f = ctx.prog.find_method(c, "__init__")
        q = c.qual[len("bgem."):]
        n += 1
        ctx.saw("option classes", q)
        pol = lambda g: "opaque" if getattr(g, "qual", "") in (OB + ".__init__", OB + ".finish_init") else None
        for o in ctx.run(f, keep_conds=True, policy=pol):
            if o.flow == "raise":
                continue
            ev = [e for e, l in flat(o.events())]
            ini = [i for i, e in enumerate(ev) if e.kind == "call" and e.name == OB + ".__init__"]
            fin = [i for i, e in enumerate(ev) if e.kind == "call" and e.name == OB + ".finish_init"]
            wr = [i for i, e in enumerate(ev) if e.kind == "write" and e.recv.op in ("param", "self", "new")]
            ctx.check(len(ini) == 1 and (not wr or ini[0] < wr[0]), "class", q, "options are declared before the base constructor", f.loc(f.node), key=q + ":init")
            ctx.check(fin and (not wr or fin[-1] > wr[-1]), "class", q, "the declarations are never finished, unknown options would be declared",
                      f.loc(f.node), key=q + ":finish")
            if ini:
                a = [canon(x) for x in ev[ini[0]].args]
                pre = a[-1] if a else None
                ctx.check(pre is not None and is_const(pre) and cval(pre) == c.name + ".", "class", q, "the prefix is not that of the option group",
                          f.loc(f.node), key=q + ":prefix")
                ctx.counts["options declared in " + c.name] = len(wr)
    ctx.expect("option classes", 2)
