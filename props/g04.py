"""G04: spectral priors give the documented power times frequency bin widths."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, synth
from pbt.core import Prop, Sub
from pbt.helpers import close, need

YR = 365.25 * 86400.0
FYR = 1.0 / YR

# name -> settings with their ranges; a setting may be left at the documented default (where there is one)
SETTINGS = {
    "powerlaw": dict(log10_A=(-20, -10, -16), gamma=(-1, 8, 5)),
    "powerlaw_genmodes": dict(log10_A=(-20, -10, -16), gamma=(-1, 8, 5)),
    "turnover": dict(log10_A=(-20, -10, -15), gamma=(-1, 8, 4.33), lf0=(-10, -6, -8.5), kappa=(0.5, 5, 10 / 3.0), beta=(0.1, 2, 0.5)),
    "turnover_knee": dict(log10_A=(-20, -10, None), gamma=(-1, 8, None), lfb=(-10, -6, None), lfk=(-10, -6, None), kappa=(0.5, 5, None), delta=(-4, 4, None)),
    "broken_powerlaw": dict(log10_A=(-20, -10, None), gamma=(-1, 8, None), delta=(-3, 8, None), log10_fb=(-9.5, -6.5, None), kappa=(0.05, 1, 0.1)),
    "t_process": dict(log10_A=(-20, -10, -15), gamma=(-1, 8, 4.33)),
    "t_process_adapt": dict(log10_A=(-20, -10, -15), gamma=(-1, 8, 4.33)),
    "free_spectrum": {},
    "infinitepower": {},
}


@st.composite
def case(draw):
    kind = draw(st.sampled_from(sorted(SETTINGS)))
    p = {}
    for k, (lo, hi, default) in SETTINGS[kind].items():
        v = draw(st.one_of(st.floats(lo, hi), st.floats(lo, hi), st.floats(lo, hi), st.integers(int(np.ceil(lo)), int(hi)), *([st.none()] if default is not None else [])))
        p[k] = v
    return dict(
        kind=kind,
        p=p,
        nf=draw(st.one_of(st.integers(1, 12), st.integers(1, 12), st.integers(1, 12), st.integers(13, 150))),
        grid=draw(st.sampled_from(["lin", "lin", "log", "any"])),
        T=draw(st.floats(0.5, 30)),
        comp=draw(st.sampled_from([None, None, 2, 6, 1])) if kind in ("powerlaw", "powerlaw_genmodes") else None,
        extra=draw(st.sampled_from(["none", "one", "vector"])),
        nfreq=draw(st.floats(-0.4, 11.4)),
        how=draw(st.sampled_from(["call", "function", "const", "signal"])),
        seed=draw(gen.SEEDS),
    )


def grid(c, rng):
    n, T = c["nf"], c["T"] * YR
    if c["grid"] == "lin":
        return (np.arange(n) + 1.0) / T
    if c["grid"] == "log":
        return np.geomspace(1 / T, 40 / T, n) if n > 1 else np.array([1 / T])
    return np.sort(10.0 ** rng.uniform(-9.3, -6.5, n))


def power(c, p, f):
    """log10 of the power spectral density of each frequency [s^3]."""
    k = c["kind"]
    d = {n: (v if v is not None else SETTINGS[k][n][2]) for n, v in p.items()}
    x = np.log10(f * YR)
    base = 2 * d["log10_A"] - np.log10(12 * np.pi**2) + 3 * np.log10(YR)
    if k in ("powerlaw", "powerlaw_genmodes", "t_process", "t_process_adapt"):
        return base - d["gamma"] * x
    lx = np.log10(f)

    def l1p(e):  # log10(1 + 10^e) without overflow
        return np.logaddexp(0.0, e * np.log(10)) / np.log(10)

    if k == "turnover":
        return base - d["gamma"] * x - 2 * d["beta"] * l1p(d["kappa"] * (d["lf0"] - lx))
    if k == "turnover_knee":
        return base - d["gamma"] * x + 2 * d["delta"] * l1p(lx - d["lfk"]) - l1p(d["kappa"] * (d["lfb"] - lx))
    return base - d["gamma"] * x + d["kappa"] * (d["gamma"] - d["delta"]) * l1p((lx - d["log10_fb"]) / d["kappa"])


def run(c):
    from enterprise.signals import gp_bases, gp_priors, gp_signals, parameter, signal_base

    rng = np.random.default_rng([c["seed"], 31])
    f = grid(c, rng)
    n = len(f)
    comp = c["comp"] or 2
    kind, p = c["kind"], dict(c["p"])
    width = np.diff(np.concatenate([[0.0], f]))
    kw = {k: v for k, v in p.items() if v is not None}
    if c["comp"]:
        kw["components"] = c["comp"]
    scale = np.ones(n)
    if kind == "powerlaw_genmodes" and c["extra"] != "none":
        w = 10.0 ** rng.uniform(-6, -3, n)
        kw["wgts"] = w
        width = w**2
    if kind in ("t_process", "t_process_adapt"):
        a = 10.0 ** rng.uniform(-2, 2, n)
        name = "alphas" if kind == "t_process" else "alphas_adapt"
        if c["extra"] == "vector":
            kw[name] = a
            scale = a
        elif c["extra"] == "one" and kind == "t_process_adapt":
            i = int(np.clip(np.rint(c["nfreq"]), 0, n - 1))
            kw[name], kw["nfreq"] = float(a[0]), float(np.clip(c["nfreq"], i - 0.45, i + 0.45))
            scale = np.where(np.arange(n) == i, a[0], 1.0)
    if kind == "free_spectrum":
        rho = rng.uniform(-9, -4, n)
        kw["log10_rho"] = rho if c["extra"] != "vector" else list(rho)
        want = 10.0 ** (2 * rho)
    elif kind == "infinitepower":
        want = np.full(n, 1e40)
    else:
        want = 10.0 ** (power(c, p, f) + np.log10(width)) * scale
    want = np.repeat(want, comp)
    ff = np.repeat(f, comp)
    func = getattr(gp_priors, kind)
    how = c["how"]
    if how == "signal" and comp != 2:
        how = "function"
    params = {}
    if how == "call":
        got = func(ff, **kw)
    else:
        args = {}
        for k, v in kw.items():
            if k in ("components", "nfreq", "wgts") or isinstance(v, list):
                args[k] = v
            elif how == "const" and np.ndim(v) == 0:
                args[k] = parameter.Constant(v)
            else:
                size = len(v) if np.ndim(v) else None
                args[k] = parameter.Uniform(-100, 100, size=size)
                params[("J0000+0000_x_" if how == "signal" else "sp_") + k] = v
        cls = func(**args)
        if how == "signal":
            psr = synth.make_psr(dict(seed=c["seed"] % 1000, name="J0000+0000", nep=4))
            sig = gp_signals.BasisGP(cls, gp_bases.createfourierdesignmatrix_red(modes=f), name="x")
            pta = signal_base.PTA([signal_base.SignalCollection([sig])(psr)])
            need(sorted(q.name for q in pta.params) == sorted(params), "parameters %s instead of %s", [q.name for q in pta.params], sorted(params))
            got = pta.get_phi(params)[0]
        else:
            got = cls("sp")(ff, params=params)
    need(np.shape(got) == want.shape, "%s returns shape %s for %d columns", kind, np.shape(got), len(ff))
    close(got, want, kind, rtol=1e-9, atol=1e-305)
    got = np.asarray(got)
    need(np.array_equal(got.reshape(n, comp), np.repeat(got[::comp, None], comp, axis=1)), "%s differs between the columns of one frequency", kind)

    # special cases reduce to one another
    A, g = p.get("log10_A"), p.get("gamma")
    related = []
    if A is not None and g is not None:
        base = np.asarray(gp_priors.powerlaw(np.repeat(f, 2), log10_A=A, gamma=g))
        if kind == "turnover":
            related = [("turnover far above its transition", gp_priors.turnover(np.repeat(f, 2), log10_A=A, gamma=g, lf0=-80.0), base)]
        elif kind == "turnover_knee":
            related = [
                ("knee and turnover switched off", gp_priors.turnover_knee(np.repeat(f, 2), A, g, -80.0, 80.0, p["kappa"], p["delta"]), base),
                ("knee with no slope", gp_priors.turnover_knee(np.repeat(f, 2), A, g, p["lfb"], p["lfk"], p["kappa"], 0.0), gp_priors.turnover(np.repeat(f, 2), log10_A=A, gamma=g, lf0=p["lfb"], kappa=p["kappa"], beta=0.5)),
            ]
        elif kind == "broken_powerlaw":
            related = [("broken power law with equal slopes", gp_priors.broken_powerlaw(np.repeat(f, 2), A, g, g, p["log10_fb"]), base)]
        elif kind == "t_process":
            related = [("t-process with unit factors", gp_priors.t_process(np.repeat(f, 2), log10_A=A, gamma=g, alphas=np.ones(n)), base)]
        elif kind == "t_process_adapt":
            related = [("adaptive t-process with unit factors", gp_priors.t_process_adapt(np.repeat(f, 2), log10_A=A, gamma=g, alphas_adapt=np.ones(n)), base)]
        elif kind == "powerlaw_genmodes":
            related = [("weights equal to root bin widths", gp_priors.powerlaw_genmodes(np.repeat(f, 2), log10_A=A, gamma=g, wgts=np.sqrt(np.diff(np.concatenate([[0], f])))), base)]
        elif kind == "powerlaw":
            related = [("ten times the amplitude", np.asarray(gp_priors.powerlaw(np.repeat(f, 2), log10_A=A + 1, gamma=g)) / 100, base)]
            six = np.asarray(gp_priors.powerlaw(np.repeat(f, 6), log10_A=A, gamma=g, components=6))
            related.append(("six columns per frequency", six[::3], base))
    for what, a, b in related:
        close(a, b, what, rtol=1e-9, atol=1e-305)
    return {"nontrivial": n > 1, "labels": [kind, how, c["grid"], "components=%d" % comp]}


PROP = Prop(
    "G04",
    "random settings (or documented defaults) and frequency grids for the nine spectra, called directly, with parameters, with constants and as the prior of a "
    "Gaussian process; compared with the power computed in logarithms times the bin width, and with one another at special settings; non-trivial: at least two frequencies",
    [Sub("spectra", case, run, 15000, 500000)],
    ["broken_powerlaw: gamma is the slope below the break, as in its formula (its docstring swaps the two)"],
)
