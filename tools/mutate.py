#!/usr/bin/env python3
"""Mutation testing of the checks (development tool, not a check).

mutate.py cov                       lines executed by every check -> /tmp/mut/cov.json
mutate.py run [FILE-substring] [-n N] [-s SEED]   stage A: mutants x covering checks, scaled down, 8 at a time
mutate.py show                      survivors
"""
import ast, copy, json, os, random, shutil, subprocess, sys, time, signal
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = os.environ.get("MUT_ROOT", "/tmp/mut")
REPO = "/repo"
FILES = ["enterprise/pulsar.py", "enterprise/pulsar_inflate.py"] + ["enterprise/signals/%s.py" % m for m in
         "anis_coefficients deterministic_signals gp_bases gp_priors gp_signals parameter selections signal_base utils white_signals".split()]
PIDS = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]

# ---------------------------------------------------------------- mutants
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.MatMult: None, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.FloorDiv: ast.Div, ast.Mod: ast.Add}

def skip(node):
    s = ast.unparse(node)
    return "logger." in s or "warnings.warn" in s or s.startswith("print(")

class Finder(ast.NodeVisitor):
    def __init__(self): self.muts = []; self.infunc = 0
    def add(self, node, kind, fn): self.muts.append((node.lineno, kind, fn, self.path()))
    def path(self): return None
    def generic_visit(self, node):
        if isinstance(node, (ast.FunctionDef, ast.Lambda)):
            # another name or attribute of the same function in its place (copy-and-paste slips)
            old, names, attrs = getattr(self, "scope", ([], [])), [], {}
            for m in ast.walk(node):
                if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store) and m.id not in names: names.append(m.id)
                elif isinstance(m, ast.arg) and m.arg not in names and m.arg not in ("self", "cls"): names.append(m.arg)
                elif isinstance(m, ast.Attribute) and isinstance(m.value, ast.Name): 
                    a = attrs.setdefault(m.value.id, [])
                    if m.attr not in a: a.append(m.attr)
            self.scope = (names, attrs)
            try: return self.visit_in(node)
            finally: self.scope = old
        return self.visit_in(node)
    def visit_in(self, node):
        if isinstance(node, (ast.Raise, ast.Assert, ast.Import, ast.ImportFrom)): return
        if isinstance(node, (ast.Expr,)) and isinstance(node.value, ast.Constant): return
        if isinstance(node, ast.JoinedStr): return
        if isinstance(node, ast.Expr) and skip(node): return
        self.mut(node)
        for field, val in ast.iter_fields(node):
            if isinstance(val, list):
                for i, v in enumerate(val):
                    if isinstance(v, ast.AST):
                        if isinstance(v, ast.stmt) and not isinstance(node, ast.Module): self.stmt(node, field, i, v)
                        self.visit(v)
            elif isinstance(val, ast.AST): self.visit(val)
    def stmt(self, parent, field, i, v):
        if isinstance(v, (ast.Assign, ast.AugAssign, ast.Expr, ast.Continue, ast.Break)) and not skip(v) and not (isinstance(v, ast.Expr) and isinstance(v.value, ast.Constant)):
            if isinstance(v, ast.Assign) and isinstance(v.targets[0], ast.Name) : return
            self.muts.append((v.lineno, "del stmt", ("stmt", parent, field, i)))
        if isinstance(v, ast.If):
            pass
    def mut(self, n):
        A = lambda kind, *fn: self.muts.append((getattr(n, "lineno", None) or n.target.lineno, kind, fn))
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            A("cmp", "cmp", n)
            if isinstance(n.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)): A("cmpflip", "cmpflip", n)
        elif isinstance(n, ast.BinOp) and BIN.get(type(n.op)):
            A("bin", "bin", n)
        elif isinstance(n, ast.AugAssign) and BIN.get(type(n.op)): A("aug", "aug", n); A("augset", "augset", n)
        elif isinstance(n, ast.BoolOp): A("bool", "bool", n)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)): A("unary", "unary", n)
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool) : A("constbool", "cbool", n)
            elif n.value is None: pass
            elif isinstance(n.value, int): A("const+1", "cint", n, 1)
            elif isinstance(n.value, float): A("const*1.01", "cflt", n)
        elif isinstance(n, (ast.If, ast.IfExp)):
            A("if True", "ift", n, True); A("if False", "ift", n, False)
        elif isinstance(n, ast.Call) and not skip(n):
            if len(n.args) >= 2 and not isinstance(n.args[0], ast.Starred) and not isinstance(n.args[1], ast.Starred): A("swapargs", "swap", n)
            for k in range(len(n.keywords)): A("delkw", "delkw", n, k)
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in ("copy", "any", "all", "sort", "cumsum", "abs", "atleast_1d", "unique", "conj", "squeeze", "real"): A("dropcall", "dropcall", n)
        elif isinstance(n, ast.Attribute) and n.attr == "T": A("dropT", "dropT", n)
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice): A("fullslice", "fslice", n)
        elif isinstance(n, ast.comprehension) and n.ifs: A("delif", "delif", n)
        if hasattr(self, "scope") and self.scope[0]:
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in self.scope[0] and len(self.scope[0]) > 1:
                o = [x for x in self.scope[0] if x != n.id]
                A("name", "name", n, o[(n.lineno * 7 + n.col_offset) % len(o)])
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name):
                o = [x for x in self.scope[1].get(n.value.id, []) if x != n.attr]
                if o and n.value.id not in ("np", "sl", "sps", "utils", "parameter", "signal_base", "hp", "sstats", "const", "logger", "os", "u", "ss"): A("attr", "attr", n, o[(n.lineno * 7 + n.col_offset) % len(o)])

def find(path):
    tree = ast.parse(open(path).read())
    f = Finder(); f.visit(tree)
    return tree, f.muts

def apply(path, k):
    tree, muts = find(path)
    line, kind, fn = muts[k][:3]
    op, n = fn[0], fn[1]
    before = None
    if op == "stmt":
        _, parent, field, i = fn
        body = getattr(parent, field)
        before = ast.unparse(body[i]); after = "pass"
        body[i] = ast.Pass()
    else:
        before = ast.unparse(n).split("\n")[0]
        if op == "cmp": n.ops[0] = CMP[type(n.ops[0])]()
        elif op == "cmpflip": n.ops[0] = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}[type(n.ops[0])]()
        elif op in ("bin", "aug"): n.op = BIN[type(n.op)]()
        elif op == "bool": n.op = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
        elif op == "cbool": n.value = not n.value
        elif op == "cint": n.value = n.value + fn[2]
        elif op == "cflt": n.value = n.value * 1.01 if n.value else 0.1
        elif op == "ift": n.test = ast.Constant(fn[2])
        elif op == "name": n.id = fn[2]
        elif op == "attr": n.attr = fn[2]
        elif op == "swap": n.args[0], n.args[1] = n.args[1], n.args[0]
        elif op == "delkw": del n.keywords[fn[2]]
        elif op == "fslice": n.slice = ast.Slice()
        elif op == "delif": n.ifs = n.ifs[1:]
        elif op in ("unary", "augset", "dropcall", "dropT"):
            class R(ast.NodeTransformer):
                def visit(s, m):
                    if m is n:
                        if op == "unary": return n.operand
                        if op == "augset": return ast.Assign([n.target], n.value, lineno=n.lineno)
                        if op == "dropT": return n.value
                        if op == "dropcall":
                            return n.args[0] if n.args else n.func.value
                    return s.generic_visit(m)
            tree = R().visit(tree)
            ast.fix_missing_locations(tree)
            after = "(%s)" % op
        if op not in ("unary", "augset", "dropcall", "dropT"): after = ast.unparse(n).split("\n")[0]
    ast.fix_missing_locations(tree)
    return line, kind, before, after, ast.unparse(tree)

# ---------------------------------------------------------------- child: run checks in process
def env_setup(tmp):
    os.environ.update(OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", HOME=tmp, VERIF_TMP=tmp, HYPOTHESIS_STORAGE_DIRECTORY=tmp + "/hyp", VERIF_SHRINK_S="0")
    sys.dont_write_bytecode = True

def preimport():
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import numpy, scipy.linalg, scipy.sparse, scipy.stats, scipy.special, scipy.integrate, scipy.interpolate, healpy, sksparse.cholmod, hypothesis, mpmath, ephem, pyarrow, pyarrow.feather, pyarrow.parquet  # noqa
    import hypothesis.internal.conjecture.engine, hypothesis.strategies, hypothesis.extra.numpy  # noqa
    import multiprocessing.shared_memory, concurrent.futures  # noqa

def child(repo, pids, out, tmp, scale, idx, cov):
    os.setsid()
    os.environ["VERIF_REPO"] = repo
    os.environ["VERIF_TMP"] = tmp
    dn = os.open(os.devnull, os.O_RDWR)
    os.dup2(dn, 1); os.dup2(dn, 2)
    res = {"status": "survived", "checks": {}}
    sys.path.insert(0, HERE)
    lines = {}
    if cov:
        mon = sys.monitoring; mon.use_tool_id(2, "cov")
        def on_line(code, ln):
            if code.co_filename.startswith(repo) and code.co_name != "<module>": lines.setdefault(code.co_filename[len(repo) + 1:], set()).add(ln)
            return mon.DISABLE
        mon.register_callback(2, mon.events.LINE, on_line); mon.set_events(2, mon.events.LINE)
    try:
        from pbt import bootstrap
        bootstrap.REPO = repo
        bootstrap.setup()
        from pbt import core
        import zlib
        for pid in pids:
            t0 = time.time()
            prop = core.load(pid)
            for sub in prop.subs:
                n = max(1, int(round(sub.n["quick"] * scale)))
                sr = core.SubRunner(prop, sub, n, (1 * 7919 + idx * 104729 + zlib.crc32(sub.name.encode())) % (2**31)).go()
                if sr.best or sr.error:
                    res.update(status="killed" if sr.best else "error", by=pid + "." + sub.name, msg=str(sr.best[2] if sr.best else sr.error)[:300]); break
            res["checks"][pid] = round(time.time() - t0, 1)
            if res["status"] != "survived": break
    except BaseException as e:
        res.update(status="importerror", msg=repr(e)[:300])
    if cov: res["lines"] = {f: sorted(v) for f, v in lines.items()}
    json.dump(res, open(out, "w"))
    os._exit(0)

def spawn(*a):
    pid = os.fork()
    if pid == 0:
        try: child(*a)
        finally: os._exit(1)
    return pid

def pool(jobs, timeout, ondone, width=int(os.environ.get("MUT_WIDTH", "8"))):
    """jobs: iterator of (key, args, out, cleanup)"""
    live = {}
    jobs = iter(jobs); more = True
    while more or live:
        while more and len(live) < width:
            try: key, args, out, clean = next(jobs)
            except StopIteration: more = False; break
            live[spawn(*args)] = (key, out, clean, time.time())
        for pid in list(live):
            key, out, clean, t0 = live[pid]
            p, st = os.waitpid(pid, os.WNOHANG)
            dead = p == pid
            if not dead and time.time() - t0 > timeout:
                try: os.killpg(pid, signal.SIGKILL)
                except ProcessLookupError: os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0); dead = True
            if dead:
                try: os.killpg(pid, signal.SIGKILL)
                except OSError: pass
                r = json.load(open(out)) if os.path.exists(out) else {"status": "timeout" if time.time() - t0 > timeout else "crash"}
                r["wall"] = round(time.time() - t0, 1)
                ondone(key, r); clean(); del live[pid]
        time.sleep(0.05)

def main():
    os.makedirs(ROOT, exist_ok=True)
    cmd = sys.argv[1]
    if cmd == "cov":
        env_setup(ROOT); preimport()
        cov = {}
        def done(k, r): cov[k] = r.get("lines", {}); print(k, r["status"], r["wall"], {f.split("/")[-1]: len(v) for f, v in cov[k].items()}, r.get("msg", ""), flush=True); json.dump(cov, open(ROOT + "/cov.json", "w"))
        jobs = []
        for p in PIDS:
            t = ROOT + "/cov_" + p; os.makedirs(t, exist_ok=True)
            o = t + "/out.json"
            if os.path.exists(o): os.remove(o)
            jobs.append((p, (REPO, [p], o, t, 0.125, 0, True), o, lambda: None))
        pool(jobs, 900, done)
    elif cmd == "run":
        env_setup(ROOT); preimport()
        sel = [a for a in sys.argv[2:] if not a.startswith("-") and not a.isdigit()]
        N = int(sys.argv[sys.argv.index("-n") + 1]) if "-n" in sys.argv else 10**9
        seed = int(sys.argv[sys.argv.index("-s") + 1]) if "-s" in sys.argv else 0
        kinds = os.environ.get("MUT_KINDS", "").split()
        cov = {p: {f: set(v) for f, v in d.items()} for p, d in json.load(open(ROOT + "/cov.json")).items()}
        size = {p: sum(len(v) for v in d.values()) for p, d in cov.items()}
        results = {}
        rp = ROOT + "/results.json"
        if os.path.exists(rp): results = json.load(open(rp))
        todo = []
        for f in FILES:
            if sel and not any(s in f for s in sel): continue
            _, muts = find(os.path.join(REPO, f))
            for k in range(len(muts)):
                key = "%s#%d" % (f, k)
                if kinds and muts[k][1] not in kinds: continue
                if key not in results: todo.append((f, k))
        random.Random(seed).shuffle(todo)
        seen = {(r["file"], r["kind"], r["before"], r["after"]) for r in json.load(open(os.environ["MUT_DONE"])).values() if r.get("status")} if "MUT_DONE" in os.environ else set()
        todo = todo[:N]
        print(len(todo), "mutants", flush=True)
        def gen():
            for f, k in todo:
                try: line, kind, b, a, src = apply(os.path.join(REPO, f), k)
                except Exception as e: print("cannot", f, k, e); continue
                key = "%s#%d" % (f, k)
                if (f, kind, b, a) in seen: continue
                meta = {"file": f, "line": line, "kind": kind, "before": b, "after": a}
                pids = sorted([p for p in cov if line in cov[p].get(f, ())], key=lambda p: size[p])
                if not pids:
                    results[key] = dict(meta, status="uncovered"); continue
                # most specific and local checks first; broad ones later
                d = "%s/m_%s" % (ROOT, key.replace("/", "_").replace("#", "_"))
                shutil.rmtree(d, ignore_errors=True)
                os.makedirs(d)
                shutil.copytree(REPO + "/enterprise", d + "/repo/enterprise", ignore=shutil.ignore_patterns("__pycache__", "datafiles"))
                os.symlink(REPO + "/enterprise/datafiles", d + "/repo/enterprise/datafiles")
                open(d + "/repo/" + f, "w").write(src)
                results[key] = meta
                yield key, (d + "/repo", pids, d + "/out.json", d, 0.125, 0, False), d + "/out.json", (lambda d=d: shutil.rmtree(d, ignore_errors=True))
        cnt = [0]
        def done(key, r):
            results[key].update(r); cnt[0] += 1
            if r["status"] in ("survived", "timeout", "crash", "error"): print(key, results[key]["line"], results[key]["kind"], "|", results[key]["before"][:80], "->", results[key]["after"][:80], "|", r["status"], r["wall"], r.get("by", ""), r.get("msg", "")[:100], flush=True)
            if cnt[0] % 20 == 0: json.dump(results, open(rp, "w"))
        pool(gen(), 400, done)
        json.dump(results, open(rp, "w"))
        from collections import Counter
        print(Counter(r.get("status") for r in results.values()))
    elif cmd == "show":
        from collections import Counter
        results = json.load(open(ROOT + "/results.json"))
        print(Counter(r.get("status") for r in results.values()))
        for k, r in sorted(results.items(), key=lambda x: (x[1]["file"], x[1]["line"])):
            if r.get("status") in (sys.argv[2:] or ["survived"]): print(k, "L%d" % r["line"], r["kind"], "|", r["before"][:100], "->", r["after"][:100])
if __name__ == "__main__":
    main()
