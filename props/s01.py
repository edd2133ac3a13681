"""S01: selections mark the right TOAs and name parameters accordingly."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, models, synth
from pbt.core import Prop, Sub
from pbt.helpers import Case, PHICOND_MAX, close, dense, labels, ll_tol, lnl, need

# labels that contain one another, differ in case only, are empty or look like numbers
LONG = "a_receiver_whose_name_is_longer_than_others_"
LABELS = ["ASP", "GASP", "430_ASP", "GUPPI", "PUPPI", "YUPPI", "guppi", "L-wide_PUPPI", "CHIME", "VEGAS", "A", "PKS", "10CM", "20CM", "0", "x y", "NRT.BON", "GUPPI-2", "GUPPI_2", LONG + "1", LONG + "2"]
FREQS = [999.999, 1000.0, 1000.001, 1999.9999, 2000.0, 430.0, 1400.0, 3000.0, 9999.9, 10000.0, 12000.0, 0.5, 1300.0, 1430.0]
WANT = ["ASP", "PUPPI", "UPPI", "0", "CM", "A", "P", "nowhere", "GUPPI", "CHIME", "430_ASP", "ASP_", "x"]


@st.composite
def pulsar_case(draw, large=False):
    if large:
        n = draw(st.sampled_from([30, 100, 300]))
        rng = np.random.default_rng(draw(gen.SEEDS))
        extra = ["sys%02d" % k for k in range(draw(st.sampled_from([0, 20])))]
        lab = lambda: [str(x) for x in rng.choice(LABELS + extra, n)]
        return dict(n=n, toas=rng.integers(0, draw(st.sampled_from([3, 1000])), n).tolist(), freqs=rng.choice(FREQS, n).tolist(), backend=lab(), fe=lab(), B=lab(), tel=lab())
    n = draw(st.integers(1, 12))
    lab = st.lists(st.sampled_from(LABELS), min_size=n, max_size=n)
    return dict(
        n=n,
        toas=[draw(st.integers(0, 8)) for _ in range(n)],
        freqs=[draw(st.sampled_from(FREQS)) for _ in range(n)],
        backend=draw(lab),
        fe=draw(lab),
        B=draw(lab),
        tel=draw(lab),
    )


@st.composite
def sel_spec(draw):
    k = draw(st.sampled_from(["plain", "plain", "ngb", "cb", "cb", "cbd", "cbd", "cbd", "fband", "fband", "idx"]))
    words = st.lists(st.sampled_from(WANT), min_size=1, max_size=3, unique=True)
    some = st.one_of(st.none(), words, st.sampled_from(WANT))
    if k == "plain":
        return draw(st.sampled_from(gen.SELS))
    if k == "ngb":
        return ["ngb", None]
    if k == "cb":
        return ["cb", draw(some)]
    if k == "cbd":
        if draw(st.booleans()):
            return ["cbd", draw(some)]
        return ["cbd", {f: draw(some) for f in draw(st.lists(st.sampled_from(["backend", "fe", "B"]), min_size=1, max_size=3, unique=True))}]
    if k == "fband":
        if draw(st.booleans()):
            return ["fband", None]
        out = {}
        for i in range(draw(st.integers(1, 3))):
            a, b = sorted([draw(st.sampled_from(FREQS)), draw(st.sampled_from(FREQS))])
            out["b%d" % i] = [a, b]
        return ["fband", out]
    return ["idx", [draw(st.sampled_from(["pick", "a_b"])), draw(st.lists(st.integers(0, 15), max_size=8))]]


@st.composite
def mask_case(draw, large=False):
    case = dict(psrs=[draw(pulsar_case(large)) for _ in range(draw(st.integers(1, 3)))], sel=draw(sel_spec()), again=draw(st.booleans()))
    if case["sel"][0] == "cbd" and isinstance(case["sel"][1], dict) and len(case["sel"][1]) > 1:
        for c in case["psrs"]:  # several flags: no label may occur in two of them
            c["fe"], c["B"] = [x + ".fe" for x in c["fe"]], [x + ".B" for x in c["B"]]
    return case


def make(c, i):
    p = synth.SynthPulsar()
    p.name = "J%04d+0000" % i
    n = c["n"]
    p.toas = 4.5e9 + np.array(c["toas"], float)
    p.freqs = np.array(c["freqs"], float)
    p.backend_flags = np.array(c["backend"])
    p.flags = {"fe": np.array(c["fe"]), "B": np.array(c["B"]), "f": p.backend_flags.copy()}
    p.telescope = np.array(c["tel"])
    p.toaerrs = 1e-6 * np.ones(n)
    p.residuals = np.zeros(n)
    return p


SPLITTING = {"none", "backend", "half", "fe", "band", "tel"}


def run_masks(case):
    from enterprise.signals import parameter

    psrs = [make(c, i) for i, c in enumerate(case["psrs"])]
    Sel = models.real_selection(case["sel"])  # one selection for all pulsars
    order = list(range(len(psrs))) * (2 if case["again"] else 1)
    nt = False
    for i in order:
        psr = psrs[i]
        want = models.ref_selection(case["sel"], psr)
        sel = Sel(psr)
        got = sel.masks
        if isinstance(case["sel"], str) and case["sel"] == "half":
            # both halves are always reported
            mid = (psr.toas.max() + psr.toas.min()) / 2
            want = {"t1": psr.toas <= mid, "t2": psr.toas > mid}
        need({str(k) for k in got} == set(want), "selection %s: groups %s instead of %s", case["sel"], sorted(map(str, got)), sorted(want))
        for k, m in got.items():
            m = np.asarray(m)
            need(m.shape == psr.toas.shape and m.dtype == bool, "mask of %s has shape %s, type %s", k, m.shape, m.dtype)
            need(np.array_equal(m, want[str(k)]), "selection %s: group %s marks %s instead of %s", case["sel"], k, m.astype(int), want[str(k)].astype(int))
        if isinstance(case["sel"], str):
            total = sum(np.asarray(m).astype(int) for m in got.values())
            need(np.array_equal(total, np.ones(len(psr.toas))), "TOAs in %s groups", total)
        # parameters of the groups
        params, kmasks = sel("efac", parameter.Uniform(0, 1))
        names = {models.join(k, "efac"): k for k in want}
        need({str(k) for k in params} == set(names) == {str(k) for k in kmasks}, "parameter keys %s, groups %s", sorted(map(str, params)), sorted(want))
        for kn, par in params.items():
            need(par.name == psr.name + "_" + kn, "parameter of %s is called %s", kn, par.name)
            need(np.array_equal(kmasks[kn], want[names[str(kn)]]), "mask of parameter %s", kn)
        arr = np.arange(1.0, len(psr.toas) + 1)
        _, ma = sel("efac", parameter.Uniform(0, 1), arr=arr)
        for kn in ma:
            close(ma[kn], np.where(want[names[str(kn)]], arr, 0.0), "masked array of %s" % kn)
        nt = nt or len(want) > 1 or any(not m.all() for m in want.values())
    s = case["sel"]
    return {"nontrivial": nt, "labels": [s if isinstance(s, str) else s[0]]}


# --------------------------------------------------------------------------- signals using selections


@st.composite
def signal_case(draw):
    n = draw(st.integers(1, 2))
    psrs = [draw(gen.psr_spec(index=i, nep=(4, 7))) for i in range(n)]
    sigs = [dict(t="mn", sel="none", p={"efac": ["const", 1.1], "log10_t2equad": ["const", -6.5]})]
    for k in range(draw(st.integers(1, 3))):
        t = draw(st.sampled_from(["mn", "tneq", "wn", "ecorr", "ecgp", "rn", "rn", "dmgp", "det", "det"]))
        sel = draw(gen.selection(overlap=t not in ("ecorr", "ecgp", "det")))
        name = "%s%d" % (t, k)
        if t in ("ecorr", "ecgp") and any(s["t"] in ("ecorr", "ecgp") for s in sigs):
            t = "det"
            name = "det%d" % k
        kinds = ("free", "free", "free", "const", "later")
        q = {"mn": ["efac"], "tneq": ["log10_tnequad"], "wn": ["efac", "idx"], "ecorr": ["log10_ecorr"], "ecgp": ["log10_ecorr"], "rn": ["log10_A", "gamma"], "dmgp": ["log10_A", "gamma"], "det": ["log10_amp", "phase"]}[t]
        s = dict(t=t, sel=sel, name=name, p={x: draw(gen.pspec(x, kinds)) for x in q})
        if t == "ecorr":
            s.update(method=draw(st.sampled_from(["sherman-morrison", "fast-sherman-morrison", "sparse", "block"])), name="")
        if t in ("rn", "dmgp"):
            s.update(combine=draw(st.booleans()), spec="powerlaw", nc=draw(st.integers(1, 3)), T=5.0)
        sigs.append(s)
    sigs += draw(gen.timing())
    return dict(psrs=psrs, model={"signals": sigs}, vs=draw(gen.SEEDS))


def run_signals(case):
    c = Case(case)
    ref, scale, cond = c.ref.loglike()
    need(set(c.pta.param_names) == c.ref.used - c.defaults.names, "parameters %s instead of %s", sorted(c.pta.param_names), sorted(c.ref.used - c.defaults.names))
    for i, (got, part) in enumerate(zip(c.pta.get_delay(c.params), c.ref.parts)):
        close(np.broadcast_to(got, part.delay.shape), part.delay, "delay of pulsar %d" % i, rtol=1e-10, scale=1e-6)
    if cond > 1e11:
        return {"nontrivial": False, "labels": ["ill-conditioned"]}
    got = lnl(c.pta, c.params, "cliques")
    need(abs(got - ref) <= ll_tol(c.ref) * scale, "log-likelihood %r, reference %r", got, ref)
    kinds = [str(s["sel"] if isinstance(s["sel"], str) else s["sel"][0]) for s in case["model"]["signals"] if "sel" in s]
    return {"nontrivial": any(k != "none" for k in kinds), "labels": sorted(set(kinds))}


PROP = Prop(
    "S01",
    "all selection functions on adversarial labels (substrings of one another), frequencies on band edges, tied times, index lists out of range, "
    "one selection object used for several pulsars; and whole models whose signals use them, against the dense reference; non-trivial: a group smaller than the data set",
    [Sub("masks", mask_case, run_masks, 6000, 200000), Sub("many", lambda: mask_case(large=True), run_masks, 600, 20000), Sub("signals", signal_case, run_signals, 1500, 60000), Sub("large", lambda: gen.bigger(signal_case()), run_signals, 450, 15000)],
    ["a dictionary selection over two flags with equal labels is ambiguous and left out, as are overlapping groups for deterministic signals and ECORR"],
)
