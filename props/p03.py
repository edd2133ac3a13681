"""P03: parameter vectors, names, priors and the hypercube transform agree."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, params, synth
from pbt.core import Prop, Sub
from pbt.helpers import close, need

SIGS = ["", "a", "b", "wf", "wf_2"]


@st.composite
def pdef(draw, nh, ppf, plain=False):
    """family, size, numeric settings and which setting refers to a hyperparameter."""
    n = draw(st.sampled_from([None, None, None, 2, 3, 11]))
    kinds = ("U", "N", "L", "UP", "UL") if ppf else ("U", "N", "NC", "T", "L", "G", "UP", "UL")
    spec = draw(params.family(n, kinds=kinds))
    ref = None
    if not plain and spec[0] in ("U", "N", "T", "L") and not any(isinstance(v, list) for v in spec[1:]):
        how = draw(st.sampled_from([None, None, "inst", "class"]))
        if how == "inst" and nh:
            ref = ["inst", draw(st.integers(0, nh - 1))]
        elif how == "class":
            ref = ["class", None]
        if ref:  # settings that are valid wherever the hyperparameter is in [-5, 5]
            spec = {"U": ["U", None, 12.5], "L": ["L", None, 6.5], "N": ["N", None, max(0.01, spec[2]) if spec[0] == "N" else 1.0], "T": ["T", None, 1.5, -6.0, 6.0]}[spec[0]]
    return dict(n=n, spec=spec, ref=ref)


@st.composite
def case(draw, large=False):
    ppf = draw(st.booleans())
    nh = draw(st.integers(0, 3))
    hyp = [
        dict(lo=draw(st.floats(-5, -1)), hi=draw(st.floats(0, 5)), kind=draw(st.sampled_from(["U", "N"] if i else ["U"])), up=draw(st.one_of(st.none(), st.integers(0, i - 1))) if i else None)
        for i in range(nh)
    ]
    shared = draw(st.lists(pdef(nh, ppf), min_size=0, max_size=3))

    def arg():
        how = draw(st.sampled_from(["class", "class", "shared", "const", "func"]))
        if how == "shared" and not shared:
            how = "class"
        if how == "class":
            return [how, draw(pdef(nh, ppf))]
        if how == "shared":
            return [how, draw(st.integers(0, len(shared) - 1))]
        if how == "const":
            return [how, draw(st.floats(-2, 2))]
        return [how, draw(pdef(nh, ppf))]

    npsr = draw(st.integers(9, 14) if large else st.integers(1, 3))
    same = draw(st.booleans())
    models = []
    for i in range(1 if same else npsr):
        names = draw(st.lists(st.sampled_from(SIGS), min_size=1, max_size=3, unique=True))
        models.append([dict(name=nm, args={k: arg() for k in draw(st.lists(st.sampled_from(["x", "y", "A", "log10_B"]), min_size=1, max_size=3, unique=True))}) for nm in names])
    return dict(
        ppf=ppf,
        hyp=hyp,
        shared=shared,
        npsr=npsr,
        models=models * npsr if same else models,
        order=draw(st.permutations(list(range(npsr)))),
        seed=draw(gen.SEEDS),
        outside=draw(st.sampled_from([False, False, False, True])),
    )


def waveform(toas, x=0.0, y=0.0, A=0.0, log10_B=0.0):
    return np.zeros_like(toas)


def inner(toas, z=0.0):
    return 1.0 + np.sum(z)


class Expect(object):
    """Independent list of the parameters: name -> (size, settings as a function of the values, names it depends on)."""

    def __init__(self):
        self.d = {}

    def add(self, name, n, spec, deps):
        self.d[name] = (n, spec, deps)


def build(case):
    from enterprise.signals import deterministic_signals as ds
    from enterprise.signals import parameter, selections, signal_base

    exp = Expect()
    hyps = []
    for i, h in enumerate(case["hyp"]):
        name = "hyp%d" % i
        if h["kind"] == "U":
            hyps.append(parameter.Uniform(h["lo"], h["hi"])(name))
            exp.hyp = getattr(exp, "hyp", {})
            exp.hyp[name] = (None, (lambda v, h=h: ["U", h["lo"], h["hi"]]), [])
        else:
            j = h["up"] if h["up"] is not None else 0
            hyps.append(parameter.Normal(mu=hyps[j], sigma=0.3)(name))
            exp.hyp[name] = (None, (lambda v, j=j: ["N", v["hyp%d" % j], 0.3]), ["hyp%d" % j])

    def use_hyp(i):
        name = "hyp%d" % i
        if name not in exp.d:
            exp.d[name] = exp.hyp[name]
            for dep in exp.hyp[name][2]:
                use_hyp(int(dep[3:]))

    def make(p):
        spec, ref, n = p["spec"], p["ref"], p["n"]
        if ref is None:
            return params.real(spec, size=n)
        h = hyps[ref[1]] if ref[0] == "inst" else parameter.Uniform(-2.0, 3.0)
        return params.real([spec[0], h] + spec[2:], size=n, conv=lambda v: v)

    def expect(name, p):
        spec, ref, n = p["spec"], p["ref"], p["n"]
        if ref is None:
            exp.add(name, n, lambda v: spec, [])
        elif ref[0] == "inst":
            use_hyp(ref[1])
            exp.add(name, n, lambda v: [spec[0], v["hyp%d" % ref[1]]] + spec[2:], ["hyp%d" % ref[1]])
        else:
            own = name + "_" + {"U": "pmin", "L": "pmin", "N": "mu", "T": "mu"}[spec[0]]
            exp.add(own, None, lambda v: ["U", -2.0, 3.0], [])
            exp.add(name, n, lambda v: [spec[0], v[own]] + spec[2:], [own])

    shared = [make(p)("sh%d" % i) for i, p in enumerate(case["shared"])]
    psrs = []
    for i in range(case["npsr"]):
        p = synth.make_psr(dict(seed=case["seed"] % 1000 + i, name="J%04d+00" % (1000 * (case["order"][i] + 1)), nep=2, kmax=1))
        psrs.append(p)
    pms = []
    for psr, sigs in zip(psrs, case["models"]):
        model = None
        for s in sigs:
            kw = {}
            for k, (how, val) in s["args"].items():
                base = "_".join([x for x in [psr.name, s["name"], k] if x])
                if how == "class":
                    kw[k] = make(val)
                    expect(base, val)
                elif how == "shared":
                    kw[k] = shared[val]
                    expect("sh%d" % val, case["shared"][val])
                elif how == "const":
                    kw[k] = parameter.Constant(val)
                else:
                    kw[k] = parameter.Function(inner, z=make(val))
                    expect(base + "_z", val)
            sig = ds.Deterministic(parameter.Function(waveform, **kw), name=s["name"])
            model = sig if model is None else model + sig
        sc = model if len(sigs) > 1 else signal_base.SignalCollection([model])
        pms.append(sc(psr))
    return psrs, pms, signal_base.PTA(pms), exp


def order(exp):
    out = []
    for name in sorted(exp.d):
        n = exp.d[name][0]
        out += ["%s_%d" % (name, i) for i in range(n)] if n else [name]
    return out


def run(case):
    psrs, pms, pta, exp = build(case)
    names = order(exp)
    need(list(pta.param_names) == names, "parameter names %s instead of %s", list(pta.param_names), names)
    need([p.name for p in pta.params] == sorted(exp.d), "parameters %s instead of %s", [p.name for p in pta.params], sorted(exp.d))
    for pm in pms:
        own = [p.name for p in pm.params]
        need(own == sorted(set(own)) and set(own) <= set(exp.d), "parameters of one pulsar: %s", own)
    need({q.name for pm in pms for p in pm.params for q in p.params} == set(exp.d), "parameters of the pulsars do not add up to those of the array")

    # values drawn given the hyperparameters
    rng = np.random.default_rng([case["seed"], 7])
    v = {}

    def value(name):
        if name in v:
            return
        n, spec, deps = exp.d[name]
        for dep in deps:
            value(dep)
        s = spec(v)
        if s[0] == "NC":
            v[name] = np.array(s[1]) + np.linalg.cholesky(np.array(s[2])) @ rng.normal(size=n)
            return
        lo, hi = params.support(s)
        if s[0] in ("N", "T"):
            lo, hi = np.maximum(lo, params.arr(s[1]) - 4 * params.arr(s[2])), np.minimum(hi, params.arr(s[1]) + 4 * params.arr(s[2]))
        x = lo + (hi - lo) * rng.uniform(0.02, 0.98, n)
        v[name] = x

    for name in sorted(exp.d, key=lambda k: rng.random()):
        value(name)
    if exp.d and case["outside"]:
        name = sorted(exp.d)[rng.integers(len(exp.d))]
        if not any(name in d[2] for d in exp.d.values()) and exp.d[name][1](v)[0] not in ("N", "NC"):
            lo, hi = params.support(exp.d[name][1](v))
            bad = hi + 1.0 if exp.d[name][1](v)[0] != "G" else -1.0
            v[name] = np.broadcast_to(bad, (exp.d[name][0],)).copy() if exp.d[name][0] else float(np.max(bad))
    if not v:  # only constants
        return {"nontrivial": False, "labels": ["no parameters"]}
    vec = np.hstack([np.atleast_1d(v[k]) for k in sorted(exp.d)])
    need(len(vec) == len(names), "harness: vector length")
    m = pta.map_params(vec)
    need(set(m) == set(v), "map_params keys %s", sorted(m))
    for k in v:
        need(np.shape(m[k]) == np.shape(v[k]) and np.array_equal(m[k], v[k]), "map_params changes %s: %s instead of %s", k, m[k], v[k])
    back = np.hstack([np.atleast_1d(m[p.name]) for p in pta.params])
    need(np.array_equal(back, vec), "vector -> dictionary -> vector is not the identity")
    need(m == {} or all(isinstance(m[k], float) for k in v if exp.d[k][0] is None), "scalar parameters must map to floats")

    want, mag = 0.0, 1.0
    with np.errstate(divide="ignore"):
        for name, (n, spec, deps) in exp.d.items():
            s = spec(v)
            lp = np.log(params.pdf(s, v[name]))
            want += np.sum(lp)
            mag += np.sum(np.abs(lp))
        got = [pta.get_lnprior(vec), pta.get_lnprior(dict(v))]
        got.append(pta.get_lnprior(dict(v, unused=3.0)))
    for g in got:
        need(np.ndim(g) == 0, "log-prior of shape %s", np.shape(g))
        if np.isfinite(want):
            need(abs(g - want) <= 1e-9 * mag, "log-prior %r instead of %r", float(g), float(want))
        else:
            need(g == want, "log-prior %r instead of %r", float(g), float(want))

    labels = ["npsr=%d" % case["npsr"], "prior zero" if not np.isfinite(want) else "prior positive"]
    if case["ppf"]:
        u = rng.uniform(0.002, 0.998, len(vec))
        for given in (u, {k: val for k, val in pta.map_params(u).items()}):
            x = pta.get_hypercube_transform(given)
            need(np.shape(x) == (len(vec),), "hypercube transform of shape %s", np.shape(x))
            xm = pta.map_params(np.asarray(x))
            um = pta.map_params(u)
            for name, (n, spec, deps) in exp.d.items():
                got = params.cdf(spec(xm), xm[name])
                close(np.atleast_1d(got), np.atleast_1d(um[name]), "%s: cdf of the hypercube transform" % name, rtol=1e-7, atol=1e-9)
        labels.append("hypercube")
    if any(d[2] for d in exp.d.values()):
        labels.append("hierarchical")
    if any(d[0] for d in exp.d.values()):
        labels.append("vectors")
    return {"nontrivial": len(exp.d) > 1, "labels": labels}


PROP = Prop(
    "P03",
    "random arrays of 1-3 pulsars whose signals take scalar, vector, shared, constant, nested and hierarchical parameters of every family; the names, "
    "the vector/dictionary maps, the log-prior and the hypercube transform are compared with an independent list built from the case; "
    "non-trivial: at least two parameters",
    [Sub("arrays", case, run, 6000, 200000), Sub("large", lambda: case(large=True), run, 300, 10000)],
    ["distinct parameter objects with one name are not generated", "the hypercube transform is only defined when every family has an inverse cdf"],
)
