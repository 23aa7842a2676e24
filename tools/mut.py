#!/usr/bin/env python3
"""Self test of the rules: source edits that break a property (B) or keep the behaviour (K).
usage: mut.py [ids...]    runs the check of the named property on a scratch copy of the source tree
"""
import concurrent.futures
import os
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
ENTRIES = []


def B(prop, file, *edits):
    ENTRIES.append(("B", prop, file, edits))


def K(prop, file, *edits):
    ENTRIES.append(("K", prop, file, edits))


def one(entry):
    kind, prop, file, edits = entry
    d = tempfile.mkdtemp(prefix="mut.")
    try:
        shutil.copytree(REPO + "/src", d + "/src", ignore=shutil.ignore_patterns("__pycache__", "*.egg-info"))
        p = d + "/src/bgem/" + file
        s = open(p).read()
        for old, new in edits:
            if s.count(old) != 1:
                return entry, None, "pattern occurs %d times: %r" % (s.count(old), old)
            s = s.replace(old, new)
        open(p, "w").write(s)
        try:
            compile(s, p, "exec")
        except SyntaxError as e:
            return entry, None, "syntax %s" % e
        env = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + "/ev")
        props = [prop] if isinstance(prop, str) else prop
        res = {}
        out = ""
        for q in props:
            r = subprocess.run([sys.executable, os.path.join(HERE, "..", "check.py"), q], env=env, capture_output=True, text=True)
            res[q] = r.returncode
            if r.returncode != 0:
                out += r.stdout[-1500:] + r.stderr[-1500:]
        return entry, res, out
    finally:
        shutil.rmtree(d)


def main():
    sys.modules["mut"] = sys.modules["__main__"]
    sys.path.insert(0, HERE)
    import mutants  # noqa
    want = sys.argv[1:]
    verbose = "-v" in want
    want = [w for w in want if w != "-v"]
    sel = [e for e in ENTRIES if not want or (e[1] in want or (not isinstance(e[1], str) and set(e[1]) & set(want)))]
    bad = 0
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for entry, res, out in ex.map(one, sel):
            kind, prop, file, edits = entry
            if res is None:
                print("ERROR", prop, file, out)
                bad += 1
                continue
            codes = set(res.values())
            ok = (codes == {1}) if kind == "B" else (codes == {0})
            if not ok:
                bad += 1
            if not ok or verbose:
                print("%s %s %s %s: %s -> %s  %s" % ("ok  " if ok else "FAIL", kind, prop, file,
                                                     repr(edits[0][0])[:90], repr(edits[0][1])[:90], res))
                if (kind == "K" or 2 in codes or verbose) and not (ok and kind == "K"):
                    print("    " + "\n    ".join(out.strip().splitlines()[-6:]))
    print("%d entries, %d failing" % (len(sel), bad))


if __name__ == "__main__":
    main()
