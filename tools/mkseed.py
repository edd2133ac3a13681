#!/usr/bin/env python3
"""mkseed.py SPEC.py...: build /verif/seeded/<id>/ from a spec and validate it in a scratch copy.
A spec defines ID, PROP, EDITS=[(file, old, new)], DEMO (python text), NEEDS, BREAKS, CHECKS (optional)."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open("/opt/vp/BASELINE.json"))
def sh(cmd, cwd, env=None, to=600):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, env=env, timeout=to)
def build(path, checks=True):
    S = {}
    exec(open(path).read(), S)
    d = os.path.join(HERE, "seeded", S["ID"])
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    repo = os.path.join(tmp, "repo")
    try:
        sh("git clone -q /repo %s" % repo, "/tmp")
        shutil.copy(os.path.join(HERE, "tools/seedlib/demolib.py"), d)
        open(os.path.join(d, "demo.py"), "w").write(S["DEMO"].lstrip())
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexport OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        r0 = sh("bash %s/demo.sh" % d, repo)
        for f, old, new in S["EDITS"]:
            t = open(os.path.join(repo, f)).read()
            n = t.count(old)
            if n != 1:
                print(S["ID"], "edit matches", n, "times:", old[:60]); return False
            open(os.path.join(repo, f), "w").write(t.replace(old, new))
        diff = sh("git diff", repo).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        r1 = sh("bash %s/demo.sh" % d, repo)
        env = dict(os.environ, PYTHONPATH=repo, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        rt = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider --continue-on-collection-errors -o junit_family=xunit2 --junitxml=%s/j.xml tests; python3 /opt/vp/results.py %s/o.json junit:%s/j.xml" % (tmp, tmp, tmp), repo, env)
        o = json.load(open(tmp + "/o.json"))
        passed = set(o.get("passed", o if isinstance(o, list) else []))
        base = set(BASE["stable"])
        miss = base - passed
        ok = r0.returncode == 0 and r1.returncode != 0 and not miss
        print(S["ID"], "OK" if ok else "BAD", "demo", r0.returncode, r1.returncode, "tests lost", sorted(miss)[:3])
        if r0.returncode: print(r0.stdout[-600:], r0.stderr[-1500:])
        print("   patched demo:", (r1.stdout[-200:] + r1.stderr[-200:]).strip().replace("\n", " | "))
        json.dump({"property": S["PROP"], "needs": S["NEEDS"], "what_it_breaks": S["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        for c in (S.get("CHECKS") or [S["PROP"]]) if checks else []:
            r = sh("python3 %s/run_check.py %s" % (HERE, c), HERE, dict(os.environ, VERIF_REPO=repo), 900)
            print("   check", c, "exit", r.returncode, [l[:300] for l in r.stdout.splitlines() if not l.startswith(c)][:4], r.stderr[-300:])
        return ok
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
for p in sys.argv[1:]:
    if not p.startswith("-"):
        build(p, "-n" not in sys.argv)
