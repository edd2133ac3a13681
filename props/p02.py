"""P02: sampled parameters follow their priors, hyperparameters included."""
import numpy as np
from hypothesis import strategies as st
from scipy import special, stats

from pbt import gen, params
from pbt.core import Prop, Sub
from pbt.helpers import need

DRAWS = 600
P_MIN = 1e-10  # an honest sampler fails one such test in 1e10


@st.composite
def case(draw):
    n = draw(st.sampled_from([None, None, 1, 2, 3]))
    return dict(n=n, spec=draw(params.family(n, tail=2)), seed=draw(gen.SEEDS), hyper=draw(st.booleans()), how=draw(st.sampled_from(["method", "list"])))


def run(case):
    from enterprise.signals import parameter

    spec, n = case["spec"], case["n"]
    vals = {}
    if case["hyper"] and n is None and spec[0] not in ("NC", "G"):
        args = []
        for i, v in enumerate(spec[1:]):
            args.append(parameter.Uniform(-100, 100)("h%d" % i))
            vals["h%d" % i] = v
        cls = params.real([spec[0]] + args, size=n, conv=lambda v: v)
    else:
        cls = params.real(spec, size=n)
    par = cls("par")
    draws = DRAWS
    if spec[0] == "T":  # rejection sampling: fewer draws when most are rejected
        a = [np.asarray(v, float) for v in spec[1:]]
        acc = np.min(special.ndtr((a[3] - a[0]) / a[1]) - special.ndtr((a[2] - a[0]) / a[1]))
        draws = int(np.clip(DRAWS * acc * (4 if n is None else 1.5), 40, DRAWS))
    np.random.seed(case["seed"] % 2**32)
    out = []
    for _ in range(draws):
        if case["how"] == "list" and not vals:
            got = parameter.sample([par])
            need(list(got) == ["par"], "sample returns %s", list(got))
            got = got["par"]
        else:
            got = par.sample(params=dict(vals)) if vals else par.sample()
        need(np.shape(got) == ((n,) if n else ()), "%s draw of shape %s with size=%s", spec, np.shape(got), n)
        out.append(np.atleast_1d(np.asarray(got, float)))
    x = np.array(out)
    need(np.all(np.isfinite(x)), "%s draws are not finite", spec)
    if spec[0] not in ("N", "NC", "G"):
        lo, hi = params.support(spec)
        eps = 1e-12 * (np.abs(lo) + np.abs(hi))
        need(np.all(x >= lo - eps) and np.all(x <= hi + eps), "%s draws in [%s, %s] leave the support", spec, x.min(0), x.max(0))
    if spec[0] == "G":
        need(np.all(x > 0), "inverse-gamma draws must be positive")
    if spec[0] == "NC":
        L = np.linalg.cholesky(np.array(spec[2]))
        u = special.ndtr(np.linalg.solve(L, (x - np.array(spec[1])).T).T)
    else:
        u = params.cdf(spec, x)
    for j in range(u.shape[1]):
        d, p = stats.kstest(u[:, j], "uniform")
        need(p > P_MIN, "%s: %d draws of component %d do not follow the prior (KS distance %.3f, p=%.1e)", spec, draws, j, d, p)
        r = np.corrcoef(u[:-1, j], u[1:, j])[0, 1] * np.sqrt(draws)
        need(abs(r) < 6.5, "%s: successive draws are correlated (%.1f sigma)", spec, r)
        for k in range(j):
            r = np.corrcoef(u[:, k], u[:, j])[0, 1] * np.sqrt(draws)
            need(abs(r) < 6.5, "%s: components %d and %d are correlated (%.1f sigma)", spec, k, j, r)
    return {"nontrivial": True, "labels": [spec[0], "size=%s" % n, "hyperparameters" if vals else "numbers"]}


# --------------------------------------------------------------------------- hierarchies
#
# Nodes are built in order; a setting may refer to an earlier node, be a class of its own, a function or a number.


@st.composite
def hier_case(draw):
    m = draw(st.integers(1, 7))
    nodes = []
    for i in range(m):
        kind = draw(st.sampled_from(["count", "N", "N", "U", "T", "L"] if i else ["count", "U", "N"]))

        def ref():
            how = draw(st.sampled_from(["node", "node", "node", "class", "func", "const", "number"]))
            return [how, draw(st.integers(0, max(i - 1, 0))) if i else None, round(draw(st.floats(-3, 3)), 3)]

        nodes.append(dict(kind=kind, a=ref(), b=ref(), size=draw(st.sampled_from([None, None, 3])) if kind in ("N", "U") else None))
    idx = list(range(m))
    top = draw(st.lists(st.sampled_from(idx), min_size=1, max_size=m + 2))
    return dict(nodes=nodes, top=top, single=draw(st.booleans()), seed=draw(gen.SEEDS), rounds=draw(st.integers(1, 2)))


def triangle(value, a, b):
    return 1.0 + 0 * value * a * b


def shifted(x, y=0.5):
    return x + y


def build(case, counts):
    """Parameters, plus for each name a predicate on the sampled dictionary and the names below it."""
    from enterprise.signals import parameter

    pars, below, checks = [], [], {}

    def scalar_nodes(i):
        return [j for j in range(i) if case["nodes"][j]["size"] is None]

    for i, node in enumerate(case["nodes"]):
        name = "p%d" % i
        deps = set()

        def setting(spec, arg, name=name, deps=deps, i=i):
            """The setting as given to the library and as a function of the sampled values."""
            how, j, num = spec
            cand = scalar_nodes(i)
            if how in ("node", "func") and (j is None or not cand):
                how = "number"
            if how == "number":
                return num, lambda s: num
            if how == "const":
                return parameter.Constant(num), lambda s: num
            if how == "class":
                own = "%s_%s" % (name, arg)
                deps.add(own)
                checks[own] = lambda s: num - 1 <= s[own] <= num + 1
                return parameter.Uniform(num - 1, num + 1), lambda s: s[own]
            j = cand[j % len(cand)]
            deps.add("p%d" % j)
            deps.update(below[j])
            if how == "node":
                return pars[j], lambda s: s["p%d" % j]
            return parameter.Function(shifted, x=pars[j], y=num), lambda s: s["p%d" % j] + num

        kind, size = node["kind"], node["size"]
        if kind == "count":
            a, fa = setting(node["a"], "a")
            b, fb = setting(node["b"], "b")

            def sampler(a, b, size=None, name=name):
                counts.setdefault(name, []).append(np.random.uniform(-1, 1))
                return a + 2 * b + counts[name][-1]

            cls = parameter.UserParameter(prior=parameter.Function(triangle, a=a, b=b), sampler=sampler)
            checks[name] = lambda s, fa=fa, fb=fb, name=name: abs(s[name] - (fa(s) + 2 * fb(s) + counts[name][-1])) <= 1e-12 * (abs(fa(s)) + abs(fb(s)) + 1)
        elif kind == "N":
            a, fa = setting(node["a"], "mu")
            cls = parameter.Normal(mu=a, sigma=1e-8, size=size)
            checks[name] = lambda s, fa=fa, name=name: np.all(np.abs(s[name] - fa(s)) < 1e-6 + 1e-12 * abs(fa(s)))
        elif kind == "U":
            how = node["a"][0]
            a, fa = setting(node["a"], "pmin")
            if isinstance(a, parameter.Parameter):
                b = parameter.Function(shifted, x=a, y=2.0)
            elif isinstance(a, type) and issubclass(a, parameter.FunctionBase):
                b = parameter.Function(shifted, x=pars[scalar_nodes(i)[node["a"][1] % len(scalar_nodes(i))]], y=node["a"][2] + 2.0)
            else:
                b = node["a"][2] + 2.0
            width = 3.0 if how == "class" else 2.0
            cls = parameter.Uniform(pmin=a, pmax=b, size=size)
            tol = lambda v: 1e-12 * (abs(v) + 1)
            checks[name] = lambda s, fa=fa, name=name, width=width: np.all(s[name] >= fa(s) - tol(fa(s))) and np.all(s[name] <= fa(s) + width + tol(fa(s)))
        elif kind == "T":
            a, fa = setting(node["a"], "mu")
            cls = parameter.TruncNormal(mu=a, sigma=1e-7, pmin=-1e7, pmax=1e7, size=size)
            checks[name] = lambda s, fa=fa, name=name: np.all(np.abs(s[name] - fa(s)) < 1e-5 + 1e-12 * abs(fa(s)))
        else:
            num = node["a"][2]
            cls = parameter.LinearExp(pmin=num, pmax=parameter.Constant(num + 1))
            checks[name] = lambda s, num=num, name=name: num <= s[name] <= num + 1
        pars.append(cls(name))
        below.append(deps)
    return pars, below, checks


def run_hier(case):
    from enterprise.signals import parameter

    counts = {}
    pars, below, checks = build(case, counts)
    top = case["top"][:1] if case["single"] else case["top"]
    for i, p in enumerate(pars):
        got = {q.name for q in p.params}
        need(got == {"p%d" % i} | below[i], "parameters of p%d: %s instead of %s", i, sorted(got), sorted({"p%d" % i} | below[i]))
    np.random.seed(case["seed"] % 2**32)
    expected = set()
    for i in top:
        expected |= {"p%d" % i} | below[i]
    for r in range(case["rounds"]):
        counts.clear()
        given = [pars[i] for i in top]
        got = parameter.sample(given[0] if case["single"] else given)
        need(set(got) == expected, "sampling %s returns %s instead of %s", ["p%d" % i for i in top], sorted(got), sorted(expected))
        for name, calls in counts.items():
            need(len(calls) == 1, "%s was drawn %d times", name, len(calls))
        need(set(counts) <= expected, "parameters %s drawn but not asked for", sorted(set(counts) - expected))
        for name, val in got.items():
            size = case["nodes"][int(name[1:])]["size"] if "_" not in name else None
            need(np.shape(val) == ((size,) if size else ()), "%s: shape %s with size %s", name, np.shape(val), size)
            need(bool(checks[name](got)), "%s = %s does not follow its prior given the returned values %s", name, val, {k: np.asarray(v).tolist() for k, v in got.items()})
    depth = max(len(below[i]) for i in top)
    return {"nontrivial": depth > 0, "labels": ["depth=%d" % min(depth, 4), "shared" if sum(len(below[i]) for i in set(top)) + len(set(top)) > len(expected) else "not shared"] + sorted({case["nodes"][i]["kind"] for i in top})}


PROP = Prop(
    "P02",
    "marginals: %d draws from a random prior (every family, scalar and vector settings, hyperparameters), tested against the independent cdf "
    "(KS, p > 1e-10), support, size, independence of components and successive draws; hierarchy: random dependency graphs of parameters whose "
    "draws determine what their hyperparameters were; a hierarchy is non-trivial if something sampled has a hyperparameter" % DRAWS,
    [Sub("marginals", case, run, 1200, 40000), Sub("hierarchy", hier_case, run_hier, 4000, 150000)],
    ["distributions are tested statistically: a distortion below a KS distance of about 0.13 in one case can go unnoticed"],
)
