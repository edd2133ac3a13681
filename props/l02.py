"""L02: results depend only on current parameters, never on evaluation history."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, history, models, special, synth
from pbt.core import Prop, Sub
from pbt.helpers import labels, need


@st.composite
def case(draw, npsr=(1, 3), n=(3, 10), **kw):
    psrs = draw(gen.psr_specs(npsr))
    return dict(psrs=psrs, model=draw(gen.model(len(psrs), **kw)), vs=draw(gen.SEEDS), ops=draw(history.ops(n)), dense_chol=draw(st.booleans()))


@st.composite
def special_case(draw):
    kind = draw(st.sampled_from(special.KINDS))
    n = draw(st.integers(1, 2))
    psrs = [draw(gen.psr_spec(index=i)) for i in range(n)]
    for s in psrs:
        s["ndmx"] = draw(st.integers(1, 3))
    return dict(kind=kind, opt=draw(st.integers(0, 5)), psrs=psrs, vs=draw(gen.SEEDS), ops=draw(history.ops((3, 8), later=False)))


def drive(case, psrs, fresh, later):
    """fresh(constants) -> newly built PTA with those constants set."""
    pta = fresh({})
    st_ = history.State(pta.params, later, case["vs"])
    pta.set_default_params(st_.defaults())
    seen, revisits, defaults, raised = set(), 0, 0, 0
    for k, op in enumerate(case["ops"]):
        new = st_.apply(op)
        if new:
            pta.set_default_params(new)
            defaults += 1
        if op.get("bad"):
            raised += history.disturb(pta, op["bad"], st_, psrs, op["method"])
        key = tuple(sorted(st_.pick.items())) + tuple(sorted(st_.dpick.items()))
        revisits += key in seen
        seen.add(key)
        other = fresh(st_.defaults())
        got = history.query(pta, op["q"], st_.d, op["method"], psrs)
        want = history.query(other, op["q"], dict(st_.d), op["method"], psrs)
        history.compare(got, want, "step %d (%s)" % (k, op["q"]))
    return len(seen), revisits, defaults, raised


def run(case):
    psrs = [synth.make_psr(s) for s in case["psrs"]]

    def fresh(const):
        b = models.Built(case["model"], psrs, dense_chol=case["dense_chol"])
        if const:
            b.pta.set_default_params(const)
        return b.pta

    d = gen.Defaults(case["vs"])
    b = models.Built(case["model"], psrs)
    models.RefModel(case["model"], psrs, models.values_for(b.pta, case["vs"]), d)
    ns, rev, nd, err = drive(case, psrs, fresh, d.names)
    lab = labels(case)
    if rev:
        lab.append("revisit")
    if nd:
        lab.append("constants changed")
    if err:
        lab.append("after an error")
    return {"nontrivial": ns > 1, "labels": lab}


def run_special(case):
    psrs = special.pulsars(case)
    ns, rev, _, err = drive(case, psrs, lambda const: special.build(case["kind"], psrs, case["opt"]), [])
    return {"nontrivial": ns > 1, "labels": [case["kind"]] + (["revisit"] if rev else []) + (["after an error"] if err else [])}


# values that hash, print or round alike without being equal
VALUES = [-2.0, -1.0, 0.0, 1.0, 2.0, 0.5, -0.5, 1.0 + 2.0**-52, 1.0 - 2.0**-53, 1.0 + 1e-9, 1.5, -1.5, 1e-12, -1e-12, 3.0]


@st.composite
def values_case(draw):
    """Models of plain functions of unrestricted scalar and vector parameters."""
    ops = []
    for _ in range(draw(st.integers(2, 6))):
        ops.append(
            dict(
                v={k: draw(st.sampled_from(VALUES)) for k in draw(st.sets(st.sampled_from(["white", "delay", "basis", "prior"]), max_size=4))},
                w={k: draw(st.lists(st.sampled_from(VALUES), min_size=2, max_size=2)) for k in draw(st.sets(st.sampled_from(["vwhite", "vdelay", "vbasis", "vprior"]), max_size=2))},
                q=draw(st.sampled_from(["ll", "ll", "ndiag", "delay", "basis", "phi", "phiinv", "TNr", "TNT", "rNr"])),
                method=draw(st.sampled_from(["cliques", "sparse"])),
            )
        )
    return dict(
        psrs=draw(gen.psr_specs((1, 2), nep=(3, 5))),
        tm=draw(st.sampled_from(["tm", "mtm", "no"])),
        common=draw(st.booleans()),
        vector=draw(st.booleans()),
        ops=ops,
    )


def values_model(case, psrs):
    import numpy as np

    from enterprise.signals import deterministic_signals, gp_signals, parameter, signal_base, utils, white_signals

    vec = case["vector"]
    both = lambda x, y: 0.3 * x + (0.1 * y[0] - 0.07 * y[1] if y is not None else 0.0)
    par = lambda name: parameter.Uniform(-10, 10)(name)
    vpar = lambda name: {"y": parameter.Uniform(-10, 10, size=2)("v" + name)} if vec else {}

    @parameter.function
    def var(toaerrs, x=0.0, y=None):
        return toaerrs**2 * 10.0 ** both(x, y)

    @parameter.function
    def wave(toas, x=0.0, y=None):
        return 1e-6 * np.sin(toas / 1e7 + both(x, y)) + 1e-6 * both(x, y)

    @parameter.function
    def basis(toas, x=0.0, y=None):
        z = (toas - 4.58e9) / 1e8
        b = both(x, y)
        return np.array([np.cos(z * (1 + 0.1 * b)), np.sin(z + b), z + b]).T.copy(), np.arange(1.0, 4.0)

    @parameter.function
    def prior(f, x=0.0, y=None):
        return 1e-12 * f ** both(x, y) * 10.0 ** both(x, y)

    spec, bas = prior(x=par("prior"), **vpar("prior")), basis(x=par("basis"), **vpar("basis"))
    model = white_signals.WhiteNoise(var(x=par("white"), **vpar("white")), name="w")
    model = model + deterministic_signals.Deterministic(wave(x=par("delay"), **vpar("delay")), name="d")
    if case["common"]:
        model = model + gp_signals.BasisCommonGP(spec, bas, utils.hd_orf(), name="g")
    else:
        model = model + gp_signals.BasisGP(spec, bas, name="g")
    if case["tm"] == "tm":
        model = model + gp_signals.TimingModel()
    elif case["tm"] == "mtm":
        model = model + gp_signals.MarginalizingTimingModel()
    return signal_base.PTA([model(p) for p in psrs])


def run_values(case):
    import numpy as np

    psrs = [synth.make_psr(s) for s in case["psrs"]]
    pta = values_model(case, psrs)
    x = {k: 0.0 for k in ("white", "delay", "basis", "prior")}
    if case["vector"]:
        x.update({"v" + k: np.zeros(2) for k in list(x)})
    seen = set()
    for k, op in enumerate(case["ops"]):
        x = dict(x)
        x.update(op["v"])
        if case["vector"]:
            x.update({k_: np.array(v) for k_, v in op["w"].items()})
        seen.add(repr(sorted(x.items())))
        got = history.query(pta, op["q"], x, op["method"], psrs)
        want = history.query(values_model(case, psrs), op["q"], x, op["method"], psrs)
        history.compare(got, want, "step %d (%s at %s)" % (k, op["q"], x), rtol=1e-10 if op["q"] != "ll" else 1e-9)
    return {"nontrivial": len(seen) > 1, "labels": [case["tm"], "common" if case["common"] else "single", "vector" if case["vector"] else "scalar"]}


# --------------------------------------------------------------------------- several signals of every kind, few values


@st.composite
def mixture_case(draw):
    """Two to six signals with one or two parameters each, values from a set of three: partial changes and returns are common."""
    kinds = draw(st.lists(st.sampled_from(["delay", "delay", "white", "basis", "prior", "both", "coef", "coefb", "ecorr", "common", "ccoef"]), min_size=2, max_size=6))
    sigs = [dict(kind=k, sel=draw(st.sampled_from(["none", "none", "backend", "half"])), combine=draw(st.booleans())) for k in kinds]
    n = len(sigs)
    ops = [
        dict(
            set=draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, 3), st.integers(0, 2)).map(list), min_size=1, max_size=2)),
            q=draw(st.sampled_from(["ll", "ll", "ll", "delay", "delay", "ndiag", "basis", "phi", "phiinv", "TNr", "TNT", "rNr", "logprior", "siglevel", "none"])),
            method=draw(st.sampled_from(["cliques", "sparse"])),
            # before that, an evaluation that fails: one parameter is missing or no number
            bad=draw(st.one_of(st.none(), st.none(), st.tuples(st.sampled_from(["missing", "text", "nan", "huge"]), st.integers(0, n - 1), st.integers(0, 3), st.sampled_from(["ll", "basis", "phi", "delay", "TNr", "ndiag", "logprior"])).map(list))),
        )
        for _ in range(draw(st.integers(3, 9)))
    ]
    return dict(psrs=draw(gen.psr_specs((1, 2), nep=(4, 6), kmax=2)), sigs=sigs, where=draw(st.integers(0, n)), tm=draw(st.sampled_from(["tm", "mtm", "no"])), ops=ops)


def mixture(case, psrs):
    from enterprise.signals import deterministic_signals, gp_signals, parameter, selections, signal_base, utils, white_signals

    @parameter.function
    def wave(toas, x=0.0):
        return 1e-6 * np.sin(toas / 1e7 + x) + 3e-7 * x

    @parameter.function
    def var(toaerrs, x=0.0):
        return toaerrs**2 * 10.0 ** (0.3 * x)

    @parameter.function
    def basis(toas, x=0.0, k=0.0):
        z = (toas - 4.58e9) / 1e8
        w = 1.0 + 0.5 * k
        return np.array([np.cos(w * z * (1 + 0.1 * x)), np.sin(w * z * (1 + 0.1 * x))]).T.copy(), (1 + 0.1 * x) * w * np.array([1.0, 1.0])

    @parameter.function
    def prior(f, x=0.0):
        return 1e-12 * f**-2.0 * 10.0 ** (0.5 * x) * np.arange(1.0, len(f) + 1)

    sel = {"none": selections.no_selection, "backend": selections.by_backend, "half": selections.cut_half}
    model = None
    sigs = list(case["sigs"])
    sigs.insert(case["where"], dict(kind="mn"))
    if case["tm"] != "no":
        sigs.append(dict(kind=case["tm"]))
    for i, g in enumerate(sigs):
        nm, U = "s%d" % i, parameter.Uniform(-5, 5)
        S = selections.Selection(sel[g.get("sel", "none")])
        k = g["kind"]
        if k == "mn":
            s = white_signals.MeasurementNoise(efac=U, name=nm)
        elif k == "delay":
            s = deterministic_signals.Deterministic(wave(x=U), selection=S, name=nm)
        elif k == "white":
            s = white_signals.WhiteNoise(var(x=U), selection=S, name=nm)
        elif k == "ecorr":
            s = white_signals.EcorrKernelNoise(log10_ecorr=U, selection=S, method="sherman-morrison", name=nm)
        elif k == "tm":
            s = gp_signals.TimingModel()
        elif k == "mtm":
            s = gp_signals.MarginalizingTimingModel()
        else:
            B = basis(x=U, k=float(i)) if k in ("basis", "both", "coefb", "common", "ccoef") else basis(k=float(i))
            P = prior(x=U) if k in ("prior", "both", "coef", "common") else prior()
            if k in ("common", "ccoef"):
                s = gp_signals.BasisCommonGP(P, B, utils.hd_orf(), coefficients=k == "ccoef", name=nm)
            else:
                s = gp_signals.BasisGP(P, B, selection=S, combine=g["combine"], coefficients=k in ("coef", "coefb"), name=nm)
        model = s if model is None else model + s
    return signal_base.PTA([model(p) for p in psrs])


def run_mixture(case):
    if sum(g["kind"] == "ecorr" for g in case["sigs"]) > 1:
        case = dict(case, sigs=[g for i, g in enumerate(case["sigs"]) if g["kind"] != "ecorr" or all(h["kind"] != "ecorr" for h in case["sigs"][:i])])
    psrs = [synth.make_psr(s) for s in case["psrs"]]
    pta = mixture(case, psrs)
    names = sorted(p.name for p in pta.params)
    own = [[n for n in names if "_s%d_" % i in n + "_"] for i in range(len(case["sigs"]) + 1)]
    own = [o or [n for n in names if "ecorr" in n] for o in own]

    def value(n, v):
        if "coefficients" in n:
            size = [p.size for p in pta.params if p.name == n][0]
            return 1e-7 * np.cos(np.arange(size) + v)
        if "ecorr" in n:
            return -6.5 + 0.3 * v
        if "efac" in n:
            return 1.0 + 0.2 * v
        return [0.0, 1.0, -0.6][v]

    x = {n: value(n, 0) for n in names}
    seen, raised = set(), 0
    for k, op in enumerate(case["ops"]):
        x = dict(x)
        for i, j, v in op["set"]:
            i %= len(own)
            if own[i]:
                n = own[i][j % len(own[i])]
                x[n] = value(n, v)
        seen.add(repr(sorted(x.items())))
        if op["bad"]:
            kind, i, j, q = op["bad"]
            o = own[i % len(own)]
            raised += bool(o) and history.spoiled(pta, q, x, [o[j % len(o)]], kind, op["method"], psrs)
        if op["q"] == "none":
            continue
        got = history.query(pta, op["q"], x, op["method"], psrs)
        want = history.query(mixture(case, psrs), op["q"], x, op["method"], psrs)
        history.compare(got, want, "step %d (%s at %s)" % (k, op["q"], x), rtol=1e-9)
    return {"nontrivial": len(seen) > 1, "labels": (["after an error"] if raised else []) + [case["tm"]] + sorted({g["kind"] for g in case["sigs"]})}


# --------------------------------------------------------------------------- correlations that come and go


@st.composite
def pattern_case(draw):
    """Arrays large enough for block factorizations; correlation tables with vanishing entries, and impossible ones."""
    n = draw(st.integers(2, 5))
    v = st.sampled_from([0.0, 0.0, 0.0, 0.1, -0.1, 0.2])
    ops = []
    for _ in range(draw(st.integers(2, 4))):
        kind = draw(st.sampled_from(["zero", "same", "some", "some", "bad"]))
        tab = {"zero": [0.0] * 4, "same": [0.2] * 4, "bad": [-0.9] * 4}.get(kind) or [draw(v) for _ in range(4)]
        ops.append(dict(tab=tab, lA=draw(st.sampled_from([-13.0, -12.5, -15.0]))))
    return dict(n=n, seed=draw(gen.SEEDS), nep=draw(st.sampled_from([6, 20, 40])), nc=draw(st.sampled_from([2, 8, 16, 24])), tm=draw(st.sampled_from(["tm", "mtm", "no"])), extra=draw(st.booleans()), dense=draw(st.integers(0, 4)) == 0, method=draw(st.sampled_from(["cliques", "cliques", "sparse"])), ops=ops)


def run_patterns(case):
    import numpy as np

    from enterprise.signals import gp_signals, parameter, signal_base, utils, white_signals

    psrs = [synth.make_psr(dict(seed=case["seed"], name="J%04d+0000" % i, nep=case["nep"], kmax=2)) for i in range(case["n"])]
    U = lambda a, b, **k: parameter.Uniform(a, b, **k)

    @parameter.function
    def table(pos1, pos2, tab=None):
        if np.all(pos1 == pos2):
            return 1.0
        return tab[int(np.arccos(np.clip(pos1 @ pos2, -1, 1)) / np.pi * 3.999)]

    def build():
        pl = utils.powerlaw(log10_A=U(-18, -11)("lA"), gamma=parameter.Constant(3.0))
        m = white_signals.MeasurementNoise(efac=parameter.Constant(1.0))
        m = m + gp_signals.FourierBasisCommonGP(pl, table(tab=U(-1, 1, size=4)("tab")), components=case["nc"], Tspan=2e8, name="gw")
        if case["extra"]:
            m = m + gp_signals.FourierBasisGP(utils.powerlaw(log10_A=parameter.Constant(-13.5), gamma=parameter.Constant(2.0)), components=case["nc"] // 2, Tspan=2e8)
        if case["tm"] != "no":
            m = m + (gp_signals.TimingModel if case["tm"] == "tm" else gp_signals.MarginalizingTimingModel)()
        return signal_base.PTA([m(p) for p in psrs], lnlikelihood=signal_base.LogLikelihoodDenseCholesky if case["dense"] else signal_base.LogLikelihood)

    def evaluate(pta, x):
        with np.errstate(all="ignore"):
            try:
                return pta.get_lnlikelihood(x, phiinv_method=case["method"])
            except Exception:  # correlations that are no correlations
                need(min(x["tab"]) < -0.5, "failed for %s", x)
                return -np.inf

    pta, pats, fails = build(), set(), 0
    for k, op in enumerate(case["ops"]):
        x = dict(lA=op["lA"], tab=np.array(op["tab"]))
        got, want = evaluate(pta, x), evaluate(build(), x)
        if min(op["tab"]) < -0.5:
            fails += not np.isfinite(want)
            continue
        need(abs(got - want) <= 1e-9 * (abs(want) + 100 * case["n"]), "step %d, correlations %s: %r, for a new model %r", k, op["tab"], got, want)
        pats.add(tuple(np.array(op["tab"]) != 0))
    return {"nontrivial": len(pats) > 1, "labels": (["failed evaluation"] if fails else []) + [case["method"], "size>100" if case["n"] * case["nc"] > 50 else "small"]}


PROP = Prop(
    "L02",
    "random models driven through random histories (values from pools of three, so that values are revisited; partial "
    "queries; constants changed; dictionaries reused or new; failed evaluations in between), each result compared with a freshly built model; "
    "non-trivial: at least two different parameter states were visited",
    [
        Sub("single", lambda: case((1, 1), commons=(0, 0), gps=(0, 3)), run, 1200, 30000),
        Sub("array", lambda: case((2, 3)), run, 1200, 30000),
        Sub("large", lambda: gen.bigger(case((1, 2))), run, 200, 6000),
        Sub("special", special_case, run_special, 1000, 20000),
        Sub("patterns", pattern_case, run_patterns, 600, 12000),
        Sub("values", values_case, run_values, 1500, 30000),
        Sub("mixture", mixture_case, run_mixture, 2000, 50000),
    ],
    ["a freshly built model is the reference: what it computes is checked by L01"],
)
