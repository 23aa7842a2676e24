#!/usr/bin/python3
"""Plant a bug described by a spec file: make /verif/seeded/<ID>, confirm it in /repo, undo it. Run by hand only."""
import json, os, subprocess, sys, runpy
REPO, SEED = "/repo", "/verif/seeded"


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def passed():
    r = sh("bash /opt/vp/test.sh /tmp/seed_out.json")
    j = json.load(open("/tmp/seed_out.json"))
    return j


def main(spec):
    s = runpy.run_path(spec)
    d = os.path.join(SEED, s["ID"])
    if sh("git -C /repo status --porcelain").stdout.strip():
        sys.exit("repo dirty")
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.py", "w").write(s["DEMO"].lstrip())
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# run with cwd /repo\nhere=$(cd "$(dirname "$0")" && pwd)\n'
                                    'export PYTHONPATH="$PWD/src" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1\n'
                                    'exec timeout 250 /opt/venv/bin/python "$here/demo.py"\n')
    json.dump({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    r = sh("bash %s/demo.sh" % d, cwd=REPO)
    ok = True
    if r.returncode != 0:
        print(s["ID"], "DEMO FAILS ON CLEAN:", r.stdout[-600:], r.stderr[-900:]); ok = False
    if not ok:
        return 1
    try:
        for f, old, new in s["EDITS"]:
            p = os.path.join(REPO, "src/bgem", f)
            t = open(p, newline="").read()
            if "\r\n" in t:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if t.count(old) != 1:
                print(s["ID"], "edit matches", t.count(old), repr(old[:60])); return 1
            open(p, "w", newline="").write(t.replace(old, new))
        open(d + "/patch.diff", "wb").write(subprocess.run("git -C /repo diff", shell=True, capture_output=True).stdout)
        own = set()
        for l in sh("git -C /repo diff e9dff31 HEAD -- src").stdout.splitlines():
            if l.startswith("+") and not l.startswith("+++"):
                own.add(l[1:].strip())
        rem = [l[1:].strip() for l in sh("git -C /repo diff").stdout.splitlines() if l.startswith("-") and not l.startswith("---")]
        mine = [l for l in rem if l and l in own]
        if mine:
            print(s["ID"], "CHANGES OWN LINES", mine[:3])
        r = sh("bash %s/demo.sh" % d, cwd=REPO)
        print(s["ID"], "demo rc with patch:", r.returncode, (r.stderr.strip().splitlines() or [""])[-1][:150])
        if r.returncode == 0:
            ok = False
        if "--notest" not in sys.argv:
            sh("bash /opt/vp/build.sh")
            j = passed()
            base = json.load(open("/opt/vp/BASELINE.json"))
            bl = base.get("stable") or base.get("passed") or base.get("tests") or base
            ps = set(j.get("passed", []))
            missing = [t for t in bl if t not in ps]
            print(s["ID"], "stable tests failing:", len(missing), missing[:3])
            if missing:
                ok = False
        c = sh("VERIF_EVIDENCE=/tmp/seed_ev python3 /verif/check.py %s" % s["PROP"], cwd="/verif")
        print(s["ID"], "check rc", c.returncode, [l[:170] for l in c.stdout.splitlines() if l.startswith("  ")][:2], c.stderr[-200:])
    finally:
        sh("git -C /repo checkout -- .")
    print(s["ID"], "KEEP" if ok else "REJECT")
    return 0


if __name__ == "__main__":
    for a in sys.argv[1:]:
        if not a.startswith("--"):
            main(a)
