"""I01: evaluating a model never changes its inputs or earlier results."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, history, models, special, synth
from pbt.core import Prop, Sub
from pbt.helpers import close, labels, need

MORE = ["vector", "prior", "cube", "residuals", "conditional", "signals", "text"]


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.dtype != b.dtype or a.shape != b.shape:
            return False
        return a.tobytes() == b.tobytes()
    return type(a) is type(b) and (a == b or a is b)


def copied(x):
    if isinstance(x, dict):
        return {k: copied(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(copied(v) for v in x)
    return x.copy() if isinstance(x, np.ndarray) else x


class Watch(object):
    """Pulsars, the global random state and every result handed out so far, with their contents at that time."""

    def __init__(self, psrs):
        self.psrs = psrs
        self.before = [copied(vars(p)) for p in psrs]
        self.results = []
        self.random = copied(np.random.get_state())

    def add(self, label, arrays):
        for name, a in arrays:
            if isinstance(a, np.ndarray):
                self.results.append(("%s of %s" % (name, label), a, a.copy()))

    def check(self, where):
        for p, old in zip(self.psrs, self.before):
            now = vars(p)
            need(set(now) == set(old), "%s: the pulsar has attributes %s now", where, sorted(set(now) ^ set(old)))
            for k in old:
                need(same(now[k], old[k]), "%s: %s of pulsar %s changed", where, k, p.name)
        need(same(np.random.get_state(), self.random), "%s: the state of numpy's random generator changed", where)
        for name, a, old in self.results:
            need(same(a, old), "%s: an earlier result changed (%s)", where, name)


def ask(pta, q, d, method, psrs, seed):
    """Any public query -> named arrays, without copying."""
    if q == "vector":
        x = np.hstack([np.atleast_1d(d[p.name]) for p in pta.params]) if pta.params else np.zeros(0)
        keep = x.copy()
        mapped = pta.map_params(x)
        out = [("lnlike", np.array(pta.get_lnlikelihood(x))), ("prior", np.array(pta.get_lnprior(x)))]
        need(same(x, keep), "the parameter vector changed")
        del mapped
        return out
    if q == "prior":
        return [("prior", np.array(pta.get_lnprior(d)))]
    if q == "cube":
        if any(p.size for p in pta.params) or any(getattr(p, "params", [p])[1:] for p in pta.params):
            return []
        x = np.random.default_rng(seed).uniform(size=len(pta.params))
        keep = x.copy()
        try:
            out = [("cube", np.asarray(pta.get_hypercube_transform(x)))]
        except (NotImplementedError, AttributeError, ValueError, TypeError):
            out = []
        need(same(x, keep), "the hypercube point changed")
        return out
    if q == "residuals":
        return [("residuals %d" % i, np.asarray(r)) for i, r in enumerate(pta.get_residuals())]
    if q == "signals":
        for s in pta.signals.values():
            s.get_delay(d), s.get_ndiag(d), s.get_basis(d), s.get_phi(d)
        return []
    if q == "text":
        return [("names", np.array(pta.param_names, "U")), ("pulsars", np.array(pta.pulsars, "U"))]
    return history.query(pta, q, d, method, psrs)


@st.composite
def ops(draw, n=(3, 9), **kw):
    out = draw(history.ops(n, **kw))
    for op in out:
        if draw(st.integers(0, 2)) == 0:
            op["q"] = draw(st.sampled_from([m for m in MORE if m != "conditional"]))
        op["seed"] = draw(gen.SEEDS)
    return out


def observe(pta, psrs, case, watch, later):
    st_ = history.State(pta.params, later, case["vs"])
    consts = st_.defaults()
    keep = copied(consts)
    pta.set_default_params(consts)
    need(same(consts, keep), "the dictionary of constants changed")
    watch.check("setting constants")
    kinds = set()
    for k, op in enumerate(case["ops"]):
        new = st_.apply(op)
        if new:
            keep = copied(new)
            pta.set_default_params(new)
            need(same(new, keep), "step %d: the dictionary of constants changed", k)
        where = "step %d (%s)" % (k, op["q"])
        keep = copied(st_.d)
        try:
            got = ask(pta, op["q"], st_.d, op["method"], psrs, op["seed"])
        except NotImplementedError:  # priors of common-process coefficients
            need(case.get("kind") == "comcoef", "%s is not implemented", where)
            got = []
        need(same(st_.d, keep), "%s: the parameter dictionary changed: %s", where, [n for n in keep if n not in st_.d or not same(keep[n], st_.d[n])])
        watch.check(where)
        watch.add(where, got)
        kinds.add(op["q"])
    return kinds


@st.composite
def input_case(draw):
    psrs = draw(gen.psr_specs((1, 3), orders=("sorted", "shuffled")))
    return dict(psrs=psrs, model=draw(gen.model(len(psrs))), vs=draw(gen.SEEDS), ops=draw(ops()), readonly=draw(st.booleans()), dense_chol=draw(st.booleans()))


def freeze(x):
    if isinstance(x, dict):
        for v in x.values():
            freeze(v)
    elif isinstance(x, np.ndarray):
        x.flags.writeable = False


def run_inputs(case):
    psrs = [synth.make_psr(s) for s in case["psrs"]]
    if case["readonly"]:  # writing to an input raises at once
        for p in psrs:
            freeze(vars(p))
    watch = Watch(psrs)
    built = models.Built(case["model"], psrs, dense_chol=case["dense_chol"])
    watch.check("building")
    d = gen.Defaults(case["vs"])
    models.RefModel(case["model"], psrs, models.values_for(built.pta, case["vs"]), d)
    kinds = observe(built.pta, psrs, case, watch, d.names)
    return {"nontrivial": len(watch.results) > 1, "labels": labels(case) + (["readonly"] if case["readonly"] else []) + ["q:" + k for k in sorted(kinds)]}


@st.composite
def special_case(draw):
    kind = draw(st.sampled_from(special.KINDS))
    psrs = [draw(gen.psr_spec(index=i)) for i in range(draw(st.integers(1, 2)))]
    for s in psrs:
        s["ndmx"] = draw(st.integers(1, 3))
    return dict(kind=kind, opt=draw(st.integers(0, 5)), psrs=psrs, vs=draw(gen.SEEDS), ops=draw(ops((3, 7), later=False)), readonly=draw(st.booleans()))


def run_special(case):
    psrs = special.pulsars(case)
    if case["readonly"]:
        for p in psrs:
            freeze(vars(p))
    watch = Watch(psrs)
    pta = special.build(case["kind"], psrs, case["opt"])
    watch.check("building")
    observe(pta, psrs, case, watch, [])
    return {"nontrivial": len(watch.results) > 1, "labels": [case["kind"]] + (["readonly"] if case["readonly"] else [])}


# --------------------------------------------------------------------------- arrays built from the same definitions


@st.composite
def neighbour_case(draw):
    psrs = draw(gen.psr_specs((1, 2), orders=("sorted", "shuffled")))
    n = len(psrs)
    model = draw(gen.model(n, subsets=False))
    for s in model["signals"]:  # constants of common processes belong to the definition (known finding)
        if s["t"] in ("crn", "ckern", "ephgp"):
            s["p"] = {k: (["free"] if v[0] == "later" else v) for k, v in s["p"].items()}
        s["p"] = {k: (["free"] if v[0] == "shared" else v) for k, v in s.get("p", {}).items()}
    other = []
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.sampled_from(["new", "same", "namesake"]))
        if k == "same":
            other.append(["same", draw(st.integers(0, n - 1))])
        else:
            s = draw(gen.psr_spec(index=20 + len(other), ntm=(2, 5)))
            if k == "namesake":  # other data under the same name
                s["name"] = psrs[draw(st.integers(0, n - 1))]["name"]
            other.append(["new", s])
    names = [o[1]["name"] if o[0] == "new" else psrs[o[1]]["name"] for o in other]
    other = [o for i, o in enumerate(other) if names[i] not in names[:i]]
    return dict(psrs=psrs, other=other, model=model, vs=draw(gen.SEEDS), ops=draw(history.ops((4, 9))), turns=draw(st.lists(st.integers(0, 1), min_size=9, max_size=9)), late=draw(st.integers(0, 4)), signalwise=draw(st.booleans()))


def build(metas, psrs):
    from enterprise.signals import signal_base

    coll = signal_base.SignalCollection(metas) if len(metas) == 1 else models.add_all(metas)
    return signal_base.PTA([coll(p) for p in psrs])


def run_neighbours(case):
    a = [synth.make_psr(s) for s in case["psrs"]]
    b = [synth.make_psr(o[1]) if o[0] == "new" else a[o[1]] for o in case["other"]]
    groups = [a, b]
    metas = lambda: [models.real_signal(s) for s in case["model"]["signals"]]
    models._SHARED.clear()
    common = metas()
    ptas, states, later = [build(common, a), None], [None, None], []

    def begin(i):
        d = gen.Defaults(case["vs"])
        models.RefModel(case["model"], groups[i], models.values_for(ptas[i], case["vs"]), d)
        states[i] = history.State(ptas[i].params, d.names, case["vs"] + i)
        ptas[i].set_default_params(states[i].defaults())

    begin(0)
    used = [0, 0]
    for k, op in enumerate(case["ops"]):
        if ptas[1] is None and k >= case["late"]:
            ptas[1] = build(common, b)
            begin(1)
        i = case["turns"][k % len(case["turns"])] if ptas[1] is not None else 0
        st_ = states[i]
        new = st_.apply(op)
        if new:
            ptas[i].set_default_params(new)
        fresh = build(metas(), groups[i])
        fresh.set_default_params(st_.defaults())
        need([p.name for p in fresh.params] == [p.name for p in ptas[i].params], "step %d: array %d has parameters %s", k, i, ptas[i].param_names)
        got = history.query(ptas[i], op["q"], st_.d, op["method"], groups[i])
        want = history.query(fresh, op["q"], dict(st_.d), op["method"], groups[i])
        history.compare(got, want, "step %d (%s of array %d)" % (k, op["q"], i))
        used[i] += 1
    return {"nontrivial": min(used) > 0, "labels": labels(case) + [o[0] for o in case["other"]]}


# --------------------------------------------------------------------------- automatic time spans


@st.composite
def span_case(draw):
    psrs = draw(gen.psr_specs((1, 3)))
    return dict(psrs=psrs, kind=draw(st.sampled_from(["own", "common"])), nc=draw(st.integers(1, 4)), seed=draw(gen.SEEDS), again=draw(st.booleans()), first=draw(st.sampled_from(["basis", "phi", "ll"])))


def run_span(case):
    """Without a given time span, the span is that of the pulsar (of the array, for common processes): nothing else."""
    from enterprise.signals import gp_signals, parameter, signal_base, utils, white_signals

    psrs = [synth.make_psr(s) for s in case["psrs"]]
    spans = [p.toas.max() - p.toas.min() for p in psrs]
    full = max(p.toas.max() for p in psrs) - min(p.toas.min() for p in psrs)

    def make(T):
        pl = utils.powerlaw(log10_A=parameter.Uniform(-18, -11)("gw_log10_A"), gamma=parameter.Uniform(0, 7)("gw_gamma"))
        mn = white_signals.MeasurementNoise(efac=parameter.Constant(1.0))
        if case["kind"] == "own":
            return mn + gp_signals.FourierBasisGP(pl, components=case["nc"], Tspan=T, name="gw")
        return mn + gp_signals.FourierBasisCommonGP(pl, utils.hd_orf(), components=case["nc"], Tspan=T, name="gw")

    par = {"gw_log10_A": -13.5, "gw_gamma": 3.3}
    T = [full] * len(psrs) if case["kind"] == "common" else spans
    if case["again"] and case["kind"] == "own":
        s = make(None)
        signal_base.PTA([s(p) for p in psrs[::-1]]).get_lnlikelihood(par)
    else:
        s = make(None)
    pta = signal_base.PTA([s(p) for p in psrs])
    if case["kind"] == "common":
        e = make(full)
        want = signal_base.PTA([e(p) for p in psrs])
    else:
        want = signal_base.PTA([make(t)(p) for t, p in zip(T, psrs)])
    for q in [case["first"], "basis", "phi", "ll"]:
        history.compare(history.query(pta, q, par, "cliques", psrs), history.query(want, q, par, "cliques", psrs), "automatic time span, " + q, rtol=1e-9)
    return {"nontrivial": len(psrs) > 1, "labels": [case["kind"]]}


PROP = Prop(
    "I01",
    "random models evaluated 3-9 times by every public query while all pulsar attributes, parameter dictionaries and vectors, constants and all earlier results are watched bit by bit (half of the cases with read-only inputs); "
    "two arrays built from the same definitions (new, same or namesake pulsars) evaluated in turns and compared with separately built ones; automatic time spans; non-trivial: several results / both arrays evaluated",
    [Sub("inputs", input_case, run_inputs, 1200, 30000), Sub("large", lambda: gen.bigger(input_case()), run_inputs, 150, 4000), Sub("special", special_case, run_special, 320, 8000), Sub("neighbours", neighbour_case, run_neighbours, 800, 20000), Sub("span", span_case, run_span, 400, 6000)],
    ["arrays returned by single signals are working storage and not watched", "instantiated (shared) parameters and constants of common processes belong to the definition"],
)
