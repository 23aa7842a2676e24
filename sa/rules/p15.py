"""P15: writing a BREP model is repeatable."""
import ast
from ..loader import AnalysisError
from ..tok import Tok, T, subtoks, is_const, cval
from ..rl import canon, flat, bodies, fname, where
from .. import brep
from .p14 import regs, section_key, reach

LEVEL = "other"
TECHNIQUE = "dependency analysis of the numbering conditions and effects of one write on later writes"
EXPLANATION = ("On every abstract path of every numbering function the conditions deciding whether an object is listed depend only on "
               "containers created for the current run and on constants of construction, never on numbers left by an earlier run; "
               "the run-local mark tested is the one set; lasting changes made while writing are guarded by the absence of their "
               "own result; writing always numbers anew with new containers.")
MOD = brep.MOD
SELF = T("param", "self")


def run(ctx):
    ctx.rule("listing", "conditions of listing depend on containers of this run only; the tested mark is set when listing")
    ctx.rule("lasting", "changes of the model made by the traversal run only while their result is absent")
    ctx.rule("anew", "each write numbers the model once into sections created in that run")
    M = brep.Brep(ctx)
    written = written_attrs(ctx, M)
    for c in M.classes:
        listing(ctx, M, c, written)
    lasting(ctx, M, written)
    anew(ctx, M)
    ctx.expect("record classes", 10)


def written_attrs(ctx, M):
    """Attributes of objects assigned by the traversal or by the writing itself."""
    res = set()
    for c in M.classes:
        for p in M.trav(c):
            for s in p:
                if s.kind == "id":
                    res.add(s.event.name)
    res.add("id")
    for e, l in flat([e for o in ctx.run(M.write, policy=lambda g: "opaque" if g.name in (M.index.name, M.O) else None) for e in o.events()]):
        if e.kind == "write":
            res.add(e.name)
    return res


def run_local(t, groups):
    return any(x.op == "param" and x.args[0] == groups for x in subtoks(t))


def listing(ctx, M, c, written):
    f = ctx.prog.find_method(c, M.N)
    name = fname(c.qual)
    ctx.saw("record classes", name)
    for p in M.trav(c):
        rs = regs(p)
        upto = p.index(rs[0]) if rs and rs[0] in p else len(p)
        tested = []
        for i, s in enumerate(p):
            if s.kind != "cond" or (rs and i > upto):
                continue
            if not rs and not same_decision(s):
                continue
            t = s.tok
            bad = stale(t, written)
            ctx.check(bad is None, "listing", name, "whether the object is listed depends on %s, which is left over from an earlier run" % bad,
                      where(s.event))
            k = tested_mark(t)
            if k is not None:
                tested.append((k, t))
        if not rs:
            continue
        ctx.check(bool(tested), "listing", name + "/tested", "the object is listed without a test of the objects listed in this run", where(rs[0].event))
        marks = [s.tok for s in p if s.kind == "mark"] + [r.tok for r in rs]
        for k, t in tested:
            ctx.check(any(canon(m) is k for m in marks), "listing", name + "/marked",
                      "the object is tested in %s but not recorded there when it is listed" % k, where(rs[0].event))
        # the mark precedes the visits, so that a cycle or a repeated child is found
    ctx.saw("listing conditions", name)


def same_decision(s):
    """Condition deciding an early end: membership, id or attribute tests of self (not of its representations)."""
    return any(x.op == "attr" and x.args[1] == "id" and x.args[0] is SELF for x in subtoks(s.tok)) or \
        tested_mark(s.tok) is not None or "hasattr" in str(s.tok)


def tested_mark(t):
    """Container of the run in which self is looked for."""
    if t.op == "op" and t.args[0] in ("in", "notin", "not in") and len(t.args) == 3:
        if any(x is SELF for x in subtoks(t.args[1])):
            c = canon(t.args[2])
            if section_key(c):
                return c
    if t.op in ("pcall", "any", "all", "op", "comp") and any(x is SELF for x in subtoks(t)):
        cs = [x for x in subtoks(t) if x.op == "item" and section_key(x)]
        if len(set(cs)) == 1:
            return cs[0]
    return None


def stale(t, written):
    """A number of self used in a condition other than a comparison to the identity number 0."""
    if t.op == "op" and t.args[0] in ("==", "!=", "is") and len(t.args) == 3 and any(is_const(a) and cval(a) == 0 for a in t.args[1:] if isinstance(a, Tok)):
        return None
    if t.op == "pcall" and "hasattr" in str(t.args[0]) or "hasattr" in str(t.op):
        names = [cval(a) for a in t.args if isinstance(a, Tok) and is_const(a)]
        for n in names:
            if n in written:
                return "the presence of .%s" % n
    for x in subtoks(t):
        if x.op == "attr" and x.args[1] in written and x.args[0] is SELF:
            return "the value of .%s" % x.args[1]
        if x.op == "pcall" and ("hasattr" in str(x.args[0]) or "getattr" in str(x.args[0])):
            for a in x.args[1:]:
                if isinstance(a, Tok) and is_const(a) and cval(a) in written:
                    return "the presence of .%s" % cval(a)
        if x.op == "hasattr" and any(isinstance(a, str) and a in written or isinstance(a, Tok) and is_const(a) and cval(a) in written for a in x.args):
            return "the presence of an earlier number"
        if x.op in ("glob", "global", "modvar"):
            return "the module state %s" % x
        if x.op == "clsattr":
            return "the class state %s" % x
    return None


# ------------------------------------------------------------------------------- lasting changes
def lasting(ctx, M, written):
    """Methods called by the traversal on self that change attributes run only while these are empty."""
    for c in M.classes:
        f = ctx.prog.find_method(c, M.N)
        todo = {}
        for g in reach(ctx, f, M):
            attrs = set()
            for (loc, how), v in ctx.own.sum[g.qual].mod.items():
                if loc[0] == "P" and loc[1] == g.pos_params()[0] and loc[2]:
                    attrs.add(loc[2][0])
            attrs = {a for a in attrs if str(a).lstrip(".") not in written}
            if attrs:
                todo[g.qual] = attrs
        if not todo:
            continue
        for o in ctx.run(f, keep_conds=True, selfcls=c.qual, policy=lambda h: "opaque" if h.qual in todo else (None if h is f else M.policy(h))):
            conds = []
            for e in o.events():
                if e.kind == "cond":
                    conds.append((canon(e.args[0]) if e.args else canon(e.recv), e.name))
                elif e.kind == "call" and e.name in todo:
                    good = any(absent(t, b, todo[e.name]) for t, b in conds)
                    ctx.check(good, "lasting", "%s/%s" % (fname(c.qual), e.name.split(".")[-1]),
                              "writing adds to %s again in each run" % ", ".join(sorted(map(str, todo[e.name]))), where(e))
                    ctx.saw("lasting changes", fname(e.name))


def absent(t, b, attrs):
    """The condition says that one of the attributes is empty or None."""
    for x in subtoks(t):
        if x.op == "attr" and x.args[0].op == "param" and x.args[1].split("[")[0] in {str(a).lstrip(".") for a in attrs}:
            if t.op == "nonempty" or t is x:
                return not b
            if t.op == "op" and t.args[0] in ("==", "is", "<", "<="):
                return b
            if t.op == "op":
                return True
    return False


# ------------------------------------------------------------------------------- each write numbers anew
def anew(ctx, M):
    f = M.index
    for o in ctx.run(f, policy=lambda g: "opaque" if g.name == M.N else None):
        if o.flow == "raise":
            continue
        for e, l in flat(o.events()):
            if e.kind == "call" and e.name.endswith("." + M.N):
                g = canon([a for a in e.args if isinstance(a, Tok)][-1])
                ctx.check(containers(g), "anew", "groups", "the sections of the traversal are not created anew in each run (%s)" % g, where(e))
                ctx.saw("runs", where(e))
        break_none(ctx, o, f)
    outs = [o for o in ctx.run(M.write, keep_conds=True, policy=lambda g: "opaque" if g.name in (M.index.name, M.O) else None) if o.flow != "raise"]
    for o in outs:
        idx = [i for i, e in enumerate(o.events()) if e.kind == "call" and e.name == M.index.qual]
        ctx.check(len(idx) == 1, "anew", "write_model", "the model is not numbered exactly once by each write", M.write.loc(M.write.node))
        if not idx:
            continue
        res = None
        for e, l in flat(o.events()):
            if e.kind == "loop" and e.recv is not None and any(x.kind == "call" and x.name.endswith("." + M.O) for b, fl in bodies(e) for x, k in flat(b)):
                t = canon(e.recv)
                while t.op in ("item", "enum", "elem") and t.args:
                    t = t.args[0]
                ctx.check(t.op not in ("param", "attr", "glob", "clsattr"), "anew", "sections-written", "the written sections are not those of this run (%s)" % t, where(e))


def containers(g):
    if g.op == "dict":
        for kv in g.args:
            if isinstance(kv, Tok) and kv.op == "kv":
                v = kv.args[1]
                if v.op in ("param", "attr", "glob", "global", "clsattr", "modvar", "default"):
                    return False
        return True
    return g.op in ("pcall", "new", "comp", "call")


def break_none(ctx, o, f):
    v = canon(o.val) if o.val is not None else None
    if v is None:
        return
    ctx.check(v.op not in ("glob", "clsattr", "attr"), "anew", "result", "the sections returned are kept by the object", f.loc(f.node))
