"""Rule context: obligations, violations, known findings, evidence."""
import json
import os
import sys
import time
from .loader import Program, AnalysisError
from .types import Types
from .flow import Interp, Budget, State

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.txt")


def load_known(prop):
    """Accepted findings of a property: key -> description ('finding: property=<id> key=<key> | text')."""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line.startswith("finding:"):
                continue
            head, _, text = line[len("finding:"):].partition("|")
            d = dict(w.split("=", 1) for w in head.split() if "=" in w)
            if d.get("property") == prop:
                out[d["key"]] = text.strip()
    return out


class Ctx:
    def __init__(self, prop, tier="quick", prog=None, types=None):
        self.prop = prop
        self.tier = tier
        self.t0 = time.time()
        self._prog = prog
        self._types = types
        self.forms = True
        self._effects = None
        self.obligations = []      # (rule, construct, ok)
        self.violations = {}       # key -> dict
        self.analysed = {}         # kind -> set of names
        self.counts = {}
        self.rules = {}
        self.assumptions = []
        self.notes = []
        self.interps = 0
        self.steps = 0
        self.paths = 0

    # ---------------------------------------------------------------- lazily built program model
    @property
    def prog(self):
        if self._prog is None:
            self._prog = Program(forms=self.forms)
            self.notes += ["normalised: " + x for x in self._prog.normalised]
        return self._prog

    @property
    def own(self):
        """Ownership summaries of all functions."""
        if getattr(self, "_own", None) is None:
            from .own import Own
            self._own = Own(self.prog, self.types)
        return self._own

    @property
    def types(self):
        if self._types is None:
            self._types = Types(self.prog)
        return self._types

    @property
    def effects(self):
        if self._effects is None:
            from .effects import compute_effects
            self._effects = compute_effects(self.prog, self.types)
        return self._effects

    # ---------------------------------------------------------------- reporting
    def rule(self, rid, text):
        self.rules[rid] = text

    def ok(self, rule, construct):
        self.obligations.append((rule, construct, True))

    def bad(self, rule, construct, what, loc=None, key=None):
        """A violation; the key is made of names only (no line numbers)."""
        key = ("%s:%s" % (rule, key if key is not None else construct)).replace(" ", "_")
        self.obligations.append((rule, construct, False))
        if key not in self.violations:
            self.violations[key] = {"rule": rule, "construct": construct, "what": what, "where": loc or ""}

    def check(self, cond, rule, construct, what, loc=None, key=None):
        if cond:
            self.ok(rule, construct)
        else:
            self.bad(rule, construct, what, loc, key)
        return cond

    def saw(self, kind, name):
        self.analysed.setdefault(kind, set()).add(name)

    def expect(self, kind, minimum):
        n = len(self.analysed.get(kind, ()))
        if n < minimum:
            raise AnalysisError("only %d instances of '%s' found, at least %d expected" % (n, kind, minimum))

    # ---------------------------------------------------------------- interpretation
    def interp(self, **kw):
        self.interps += 1
        return Interp(self.prog, self.types, **kw)

    def run(self, func, opaque=(), inline=(), policy=None, relevant=None, args=None, selfcls=None, heap=None,
            facts=None, **kw):
        """Outcomes of the function; opaque / inline: qualified-name suffixes."""
        if isinstance(func, str):
            func = self.prog.func(func)

        def pol(f):
            if policy is not None:
                r = policy(f)
                if r is not None:
                    return r
            if f is func:
                return None
            q = f.qual
            for s in inline:
                if q == s or q.endswith("." + s):
                    return "inline"
            for s in opaque:
                if q == s or q.endswith("." + s):
                    return "opaque"
            return None
        kws = dict(kw)
        kws.setdefault("relevant", relevant or default_relevant)
        def start():
            st = State()
            if heap:
                st.heap.update(heap)
            if facts:
                st.facts.update(facts)
            return st
        it = self.interp(policy=pol, **kws)
        try:
            outs = it.run(func, args=args, selfcls=selfcls, st=start())
        except Budget:
            kws["merge_always"] = True
            kws["max_steps"] = 2000000
            kws["max_time"] = 90.0
            it = self.interp(policy=pol, **kws)
            try:
                outs = it.run(func, args=args, selfcls=selfcls, st=start())
            except Budget as e:
                raise AnalysisError("abstract interpretation of %s exceeded its budget (%s)" % (func.qual, e))
        self.steps += it.steps
        self.paths += len(outs)
        self.saw("functions", func.qual)
        for f in it.inlined:
            self.saw("inlined helpers", f if isinstance(f, str) else f.qual)
        self.last = it
        return outs

    # ---------------------------------------------------------------- result
    def finish(self, level, explanation, out=sys.stdout):
        known = load_known(self.prop)
        fresh = {k: v for k, v in self.violations.items() if k not in known}
        listed = {k: v for k, v in self.violations.items() if k in known}
        evdir = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
        os.makedirs(evdir, exist_ok=True)
        byrule = {}
        for r, c, ok in self.obligations:
            d = byrule.setdefault(r, {"obligations": 0, "discharged": 0})
            d["obligations"] += 1
            d["discharged"] += bool(ok)
        samples = []
        seen = set()
        for r, c, ok in self.obligations:
            if (r, c) not in seen and sum(1 for s in samples if s.startswith(r + " ")) < 12:
                seen.add((r, c))
                samples.append("%s @ %s: %s" % (r, c, "holds" if ok else "VIOLATED"))
        distinct = {(r, c) for r, c, ok in self.obligations}
        cov = {
            "explanation": explanation,
            "obligations": len(self.obligations),
            "discharged": sum(1 for o in self.obligations if o[2]),
            "distinct_obligations": len(distinct),
            "rules": {k: dict(text=v, **byrule.get(k, {"obligations": 0, "discharged": 0}))
                      for k, v in self.rules.items()},
            "abstract_paths": self.paths,
            "abstract_steps": self.steps,
            "analysed": {k: len(v) for k, v in self.analysed.items()},
            "functions": sorted(self.analysed.get("functions", ()))[:200],
            "samples": samples[:60],
        }
        cov.update(self.counts)
        ev = {"property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
              "level": level, "coverage": cov, "wall_s": round(time.time() - self.t0, 3),
              "assumptions": self.assumptions,
              "violations": [dict(key=k, **v) for k, v in sorted(fresh.items())]}
        with open(os.path.join(evdir, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print("%s: %d obligations, %d discharged, %d rules, %d functions, %d abstract paths, %.2f s"
              % (self.prop, cov["obligations"], cov["discharged"], len(self.rules),
                 len(self.analysed.get("functions", ())), self.paths, ev["wall_s"]), file=out)
        for k, v in sorted(listed.items()):
            print("KNOWN-FINDING: property=%s %s (%s)" % (self.prop, known[k] or v["what"], k), file=out)
        if fresh:
            rp = os.path.join(evdir, self.prop + ".violations.txt")
            with open(rp, "w") as f:
                for k, v in sorted(fresh.items()):
                    f.write("%s\n  rule: %s\n  construct: %s\n  where: %s\n  what: %s\n\n"
                            % (k, self.rules.get(v["rule"], v["rule"]), v["construct"], v["where"], v["what"]))
                    print("  %s [%s] %s: %s" % (v["rule"], v["where"], v["construct"], v["what"]), file=out)
            print("VIOLATION property=%s replay=%s" % (self.prop, rp), file=out)
            return 1
        return 0


def default_relevant(ev):
    return ev.kind not in ("enter", "leave") and ev.extra != "pure"
