#!/usr/bin/env python3
"""Run the check of one property:  run_check.py <ID> [--tier quick|thorough] [--replay FILE] [--sub NAME]...

exit 0: held on everything explored; exit 1 + "VIOLATION property=<id> replay=<path>"; exit 2: check error.
"""
import argparse
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
if not os.path.exists(PY):
    PY = sys.executable


def child_env(tmp):
    env = dict(os.environ)
    env.pop("PYTHONPATH", None)
    env.update(
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        PYTHONHASHSEED="0",
        PYTHONDONTWRITEBYTECODE="1",
        # a private, empty bytecode cache: the current source is always what runs
        PYTHONPYCACHEPREFIX=os.path.join(tmp, "pyc"),
        MPLBACKEND="Agg",
        PYTHONWARNINGS="ignore",
        HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(tmp, "hyp"),
        VERIF_TMP=tmp,
        HOME=tmp,
        XDG_CACHE_HOME=os.path.join(tmp, "xdgc"),
        XDG_CONFIG_HOME=os.path.join(tmp, "xdg"),
    )
    return env


def known_findings(pid):
    """Entries of known_findings.jsonl for this property (status 'known'); 'fixed' entries suppress nothing."""
    out = []
    path = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                e = json.loads(line)
                if e.get("property") == pid and e.get("status") == "known":
                    out.append(e)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--sub", action="append")
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VERIF_WORKERS", "8")))
    ap.add_argument("--worker", nargs=2)
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    pid, tier = a.pid, a.tier if a.tier in ("quick", "thorough") else "quick"

    if a.worker:  # child process
        sys.path.insert(0, HERE)
        from pbt import bootstrap

        bootstrap.setup()
        from pbt import core

        core.worker(pid, tier, seed, int(a.worker[0]), a.workers, a.worker[1], a.sub)
        return 0

    tmp = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    try:
        if a.replay:
            env = child_env(tmp)
            return subprocess.call([PY, os.path.join(HERE, "replay_one.py"), pid, a.replay], env=env, cwd=HERE)
        return run(pid, tier, seed, a, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(pid, tier, seed, a, tmp):
    t0 = time.time()
    env = child_env(tmp)
    base = [PY, os.path.abspath(__file__), pid, "--tier", tier, "--workers", str(a.workers)]
    for s in a.sub or []:
        base += ["--sub", s]
    jobs = []
    for i in range(a.workers):
        out = os.path.join(tmp, "w%d.json" % i)
        err = open(os.path.join(tmp, "w%d.err" % i), "w")
        jobs.append((i, out, subprocess.Popen(base + ["--worker", str(i), out], env=env, cwd=HERE, stdout=err, stderr=err)))
    # regression replays (minimised cases of past defects and planted bugs) run alongside
    corpus = sorted(glob.glob(os.path.join(HERE, "corpus", pid, "*.json")))
    corpus_res = None
    if corpus:
        corpus_res = subprocess.Popen(
            [PY, os.path.join(HERE, "replay_one.py"), pid] + corpus, env=env, cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True
        )
    errors, violations, subs = [], [], {}
    rule, assumptions = "", []
    limit = t0 + (float(os.environ.get("VERIF_LIMIT_S", "840")) if tier == "quick" else 1e9)
    for i, out, p in jobs:
        try:
            rc = p.wait(timeout=max(1.0, limit - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            errors.append("worker %d: no answer within the time limit" % i)
            continue
        if rc != 0 or not os.path.exists(out):
            tail = open(os.path.join(tmp, "w%d.err" % i)).read()[-1500:]
            errors.append("worker %d exited %s: %s" % (i, rc, tail))
            continue
        r = json.load(open(out))
        rule, assumptions = r["rule"], r["assumptions"]
        errors += r["errors"]
        violations += r["violations"]
        for name, s in r["subs"].items():
            d = subs.setdefault(name, {"evals": 0, "nt": set(), "trivial": 0, "labels": {}, "samples": [], "wall": 0.0})
            d["evals"] += s["evals"]
            d["nt"].update(s["nontrivial"])
            d["trivial"] += s["trivial"]
            d["wall"] = max(d["wall"], s["wall"])
            for k, v in s["labels"].items():
                d["labels"][k] = d["labels"].get(k, 0) + v
            if len(d["samples"]) < 2:
                d["samples"] += s["samples"][:1]
    nreplay = 0
    if corpus_res is not None:
        txt, _ = corpus_res.communicate()
        nreplay = len(corpus)
        if corpus_res.returncode == 1:
            for line in txt.splitlines():
                if line.startswith("FAILED "):
                    path, msg = line[7:].split(" :: ", 1)
                    c = json.load(open(path))
                    violations.append({"sub": c["sub"], "case": c["case"], "message": "(regression case %s) %s" % (os.path.basename(path), msg)})
        elif corpus_res.returncode != 0:
            errors.append("corpus replay: " + txt[-1500:])

    known = known_findings(pid)
    reported = []
    rdir = os.path.join(HERE, "replays")
    violations.sort(key=lambda v: (v["sub"], len(json.dumps(v["case"]))))
    seen = set()
    for v in violations:
        if v["sub"] in seen:
            continue
        seen.add(v["sub"])
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s_%s_seed%d.json" % (pid, v["sub"], seed))
        with open(path, "w") as f:
            json.dump({"property": pid, "sub": v["sub"], "case": v["case"], "message": v["message"], "seed": seed}, f, indent=1)
        reported.append((v, path))

    evals = sum(d["evals"] for d in subs.values()) + nreplay
    nt = sum(len(d["nt"]) for d in subs.values())
    samples = []
    for name, d in sorted(subs.items()):
        for c in d["samples"][:2]:
            samples.append({"sub": name, "case": c})
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": nt,
            "rule": rule,
            "samples": samples[:12],
            "by_subcheck": {
                name: {"evaluations": d["evals"], "distinct_nontrivial": len(d["nt"]), "trivial": d["trivial"], "labels": d["labels"], "wall_s": round(d["wall"], 2)}
                for name, d in sorted(subs.items())
            },
            "regression_replays": nreplay,
        },
        "assumptions": assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(reported),
    }
    if not a.sub:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    for name, d in sorted(subs.items()):
        print("%s %-28s evals=%-6d nontrivial=%-6d wall=%.1fs %s" % (pid, name, d["evals"], len(d["nt"]), d["wall"], json.dumps(d["labels"], sort_keys=True)[:600]))
    for e in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, e["what"]))
    if reported:
        for v, path in reported:
            print("  %s: %s" % (v["sub"], v["message"][:1500]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        for e in errors:
            print("ERROR", e)
        return 2
    print("OK property=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs" % (pid, evals, nt, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
