#!/usr/bin/env python3
"""Which kinds of values reach which arguments (development tool, not a check).

values.py run [PIDS]    run the quick checks at an eighth of their cases, recording features of every argument of every function of the library
values.py show [FILE]   per function and argument: the features seen, and those never seen
"""
import collections, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import mutate
ROOT = os.environ.get("VAL_ROOT", "/tmp/val")
REPO = "/repo"


def features(v):
    import numpy as np

    t = type(v).__name__
    if v is None or isinstance(v, (bool, np.bool_)):
        return [str(bool(v)) if v is not None else "None"]
    if isinstance(v, (int, float, np.number)) and np.ndim(v) == 0:
        out = [t]
        if not np.isreal(v):
            return out
        if v != v:
            return out + ["nan"]
        out.append("0" if v == 0 else "<0" if v < 0 else ">0")
        a = abs(float(v))
        if 0 < a < 1e-9:
            out.append("tiny")
        if a > 1e9:
            out.append("huge")
        return out
    if isinstance(v, str):
        return ["str"] + (["empty"] if not v else []) + (["_"] if "_" in v else []) + (["odd"] if not v.replace("_", "").isalnum() else [])
    if isinstance(v, np.ndarray) or hasattr(v, "toarray"):
        if not isinstance(v, np.ndarray):
            return [t]
        out = ["arr%d%s" % (v.ndim, v.dtype.kind)]
        if v.dtype.itemsize < 8 and v.dtype.kind in "fi":
            out.append("narrow")
        if v.ndim:
            n = v.shape[0]
            out.append("len0" if n == 0 else "len1" if n == 1 else "len2" if n == 2 else "len<=64" if n <= 64 else "len<=512" if n <= 512 else "long")
            if v.ndim > 1 and n:
                m = v.shape[1]
                out.append("wid0" if m == 0 else "wid1" if m == 1 else "wid>64" if m > 64 else "wid")
                if not v.flags.c_contiguous:
                    out.append("noncontig")
            elif v.ndim == 1 and n > 1 and not v.flags.c_contiguous:
                out.append("noncontig")
        if v.dtype.kind in "fi" and v.size:
            if not np.isfinite(v).all():
                out.append("nonfinite")
            if (v == 0).any():
                out.append("all0" if (v == 0).all() else "some0")
            if (v < 0).any():
                out.append("all<0" if (v < 0).all() else "some<0")
            if v.ndim == 1 and v.size > 1:
                d = np.diff(v)
                out.append("const" if (d == 0).all() else "sorted" if (d >= 0).all() else "unsorted")
                if v.size < 2000 and len(np.unique(v)) < v.size:
                    out.append("dups")
        if v.dtype.kind == "b" and v.size:
            out.append("all" if v.all() else "nobits" if not v.any() else "mixed")
        return out
    if isinstance(v, (list, tuple, dict, set)):
        n = len(v)
        return [t, "len%d" % n if n < 3 else "len<=10" if n <= 10 else "many"]
    if callable(v):
        return ["callable"]
    return [t]


def child(pid, out, tmp, scale):
    os.setsid()
    os.environ["VERIF_REPO"] = REPO
    os.environ["VERIF_TMP"] = tmp
    dn = os.open(os.devnull, os.O_RDWR)
    os.dup2(dn, 1), os.dup2(dn, 2)
    seen = {}
    res = {"status": "ok"}
    sys.path.insert(0, HERE)
    try:
        from pbt import bootstrap

        bootstrap.REPO = REPO
        bootstrap.setup()
        import zlib

        from pbt import core

        count = collections.Counter()
        mon = sys.monitoring
        mon.use_tool_id(2, "val")
        busy = [False]

        def start(code, off):
            if not code.co_filename.startswith(REPO + "/enterprise"):
                return mon.DISABLE
            if busy[0] or code.co_name.startswith("<"):
                return
            busy[0] = True
            try:
                key = code.co_filename[len(REPO) + 12 :] + ":" + code.co_qualname.replace(".<locals>", "")
                count[key] += 1
                c = count[key]
                if c > 3000 and c % 17:
                    return
                fr = sys._getframe(1)
                loc = fr.f_locals
                d = seen.setdefault(key, {})
                nargs = code.co_argcount + code.co_kwonlyargcount
                names = list(code.co_varnames[:nargs])
                k = nargs
                if code.co_flags & 4:
                    names.append(code.co_varnames[k]); k += 1
                if code.co_flags & 8:
                    names.append(code.co_varnames[k])
                for a in names:
                    if a in ("self", "cls") or a not in loc:
                        continue
                    dd = d.setdefault(a, {})
                    for f in features(loc[a]):
                        dd[f] = dd.get(f, 0) + 1
            finally:
                busy[0] = False

        mon.register_callback(2, mon.events.PY_START, start)
        mon.set_events(2, mon.events.PY_START)
        prop = core.load(pid)
        for sub in prop.subs:
            n = max(1, int(round(sub.n["quick"] * scale)))
            sr = core.SubRunner(prop, sub, n, (1 * 7919 + zlib.crc32(sub.name.encode())) % (2**31)).go()
            if sr.best or sr.error:
                res = {"status": "error", "msg": str(sr.best or sr.error)[:300]}
    except BaseException as e:
        res = {"status": "error", "msg": repr(e)[:300]}
    res["seen"] = seen
    json.dump(res, open(out, "w"))
    os._exit(0)


def main():
    os.makedirs(ROOT, exist_ok=True)
    if sys.argv[1] == "run":
        pids = sys.argv[2:] or mutate.PIDS
        mutate.env_setup(ROOT), mutate.preimport()
        live = {}
        width = int(os.environ.get("MUT_WIDTH", "8"))
        todo = list(pids)
        while todo or live:
            while todo and len(live) < width:
                p = todo.pop(0)
                t = os.path.join(ROOT, p)
                os.makedirs(t, exist_ok=True)
                k = os.fork()
                if k == 0:
                    try:
                        child(p, os.path.join(ROOT, p + ".json"), t, float(os.environ.get("VAL_SCALE", "0.125")))
                    finally:
                        os._exit(1)
                live[k] = p
            k, st = os.wait()
            p = live.pop(k, None)
            if p:
                r = json.load(open(os.path.join(ROOT, p + ".json")))
                print(p, r["status"], r.get("msg", ""), len(r["seen"]), flush=True)
    else:
        tot, by = {}, {}
        for p in mutate.PIDS:
            f = os.path.join(ROOT, p + ".json")
            if os.path.exists(f):
                for fn, d in json.load(open(f))["seen"].items():
                    by.setdefault(fn, []).append(p)
                    for a, dd in d.items():
                        for x, n in dd.items():
                            t = tot.setdefault(fn, {}).setdefault(a, {})
                            t[x] = t.get(x, 0) + n
        for fn in sorted(tot):
            if len(sys.argv) > 2 and sys.argv[2] not in fn:
                continue
            print(fn, "[%s]" % " ".join(by[fn]))
            for a, dd in tot[fn].items():
                print("    %-16s %s" % (a, " ".join("%s:%d" % (x, dd[x]) for x in sorted(dd))))


main()
