"""A small model language: JSON model specs -> (a) real enterprise models, (b) an independent dense reference.

The reference never calls enterprise: it re-derives every covariance/delay from the documented definitions and
evaluates the Gaussian likelihood with plain dense algebra, treating the (improper, 1e40) timing-model
directions by the determinant lemma so that the float64 arithmetic stays well conditioned.
"""
import zlib

import numpy as np
import scipy.linalg as sl

DAY = 86400.0
YR = 365.25 * DAY
FYR = 1.0 / YR
IMPROPER = 1e40

# --------------------------------------------------------------------------- parameter values


def _u(seed, name, pick, k=0):
    h = zlib.crc32(("%d|%s|%s|%d" % (seed, name, pick, k)).encode())
    return np.random.default_rng(h).uniform()


RANGES = [
    ("efac", 0.6, 1.8),
    ("log10_t2equad", -6.6, -5.6),
    ("log10_tnequad", -6.6, -5.6),
    ("log10_ecorr", -6.6, -5.5),
    ("log10_rho", -6.8, -5.4),
    ("log10_A", -13.6, -12.7),
    ("gamma", 1.5, 5.0),
    ("lf0", -8.8, -7.8),
    ("idx", 1.0, 4.0),
    ("log10_sigma", -6.3, -5.3),
    ("log10_lam", 7.0, 8.0),
    ("log10_amp", -6.5, -5.5),
    ("phase", 0.0, 6.28),
    ("log10_h", -14.0, -13.0),
    ("gwphi", 0.0, 6.28),
    ("cos_gwtheta", -0.95, 0.95),
    ("gwpol", 0.0, 3.14),
    ("t0", 53200.0, 54000.0),
    ("alphas", 0.3, 3.0),
]


# now and then, values a sampler would also visit: processes and noise far below or above the measurement errors
WIDE = {
    "efac": (0.1, 5.0),
    "log10_t2equad": (-9.0, -5.0),
    "log10_tnequad": (-9.0, -5.0),
    "log10_ecorr": (-9.0, -5.0),
    "log10_rho": (-10.0, -4.5),
    "log10_A": (-18.0, -12.0),
    "gamma": (0.0, 7.0),
    "log10_sigma": (-9.0, -5.0),
    "log10_lam": (6.0, 9.0),
    "log10_amp": (-9.0, -4.0),
    "log10_h": (-17.0, -12.0),
    "t0": (52000.0, 56000.0),
}


def value_for(name, size, seed, pick):
    """Deterministic parameter value for a parameter name ('pick' selects one of a small pool)."""
    for suffix, lo, hi in RANGES:
        if name.endswith(suffix):
            break
    else:
        raise KeyError(name)
    if suffix in WIDE and _u(seed, name, pick, -1) < 0.15:
        lo, hi = WIDE[suffix]
    if size:
        return np.array([lo + (hi - lo) * _u(seed, name, pick, k) for k in range(size)])
    return float(lo + (hi - lo) * _u(seed, name, pick))


# --------------------------------------------------------------------------- building the real model


def real_param(ps, size=None):
    """ps: ["free"] | ["const", v] | ["later"] | ["shared", name]"""
    from enterprise.signals import parameter

    if ps[0] == "const":
        return parameter.Constant(np.array(ps[1]) if isinstance(ps[1], list) else ps[1])
    if ps[0] == "later":
        return parameter.Constant()
    if ps[0] == "shared":  # one object for all its users within a model
        if (ps[1], size) not in _SHARED:
            _SHARED[ps[1], size] = parameter.Uniform(-100, 100, size=size)(ps[1])
        return _SHARED[ps[1], size]
    return parameter.Uniform(-100, 100, size=size)


_SHARED = {}


def real_selection(sel):
    from enterprise.signals import selections
    from enterprise.signals.selections import Selection

    if isinstance(sel, list):  # selections with settings
        kind, arg = sel
        if kind == "cb":
            return Selection(selections.custom_backends(arg))
        if kind == "cbd":
            return Selection(selections.custom_backends_dict(arg))
        if kind == "fband":
            return Selection(selections.by_freq_band(arg))
        if kind == "idx":
            return Selection(selections.by_index(arg[0], np.array(arg[1], dtype=int)))
        if kind == "ngb":
            return Selection(selections.nanograv_backends)
        raise KeyError(kind)
    f = {
        "none": selections.no_selection,
        "backend": selections.by_backend,
        "half": selections.cut_half,
        "fe": selections.by_frontend,
        "band": selections.by_band,
        "tel": selections.by_telescope,
    }[sel]
    return Selection(f)


def tspan(sig):
    return None if sig.get("T") is None else sig["T"] * YR


def real_spectrum(sig):
    from enterprise.signals import gp_priors, utils

    sp = sig["spec"]
    P = sig["p"]
    if sp == "powerlaw":
        return utils.powerlaw(log10_A=real_param(P["log10_A"]), gamma=real_param(P["gamma"]))
    if sp == "nested":  # an amplitude that is a function of two parameters
        amp = custom_functions()["wobble"](log10_A=real_param(P["log10_A"]), phase=real_param(P["phase"]))
        return utils.powerlaw(log10_A=amp, gamma=real_param(P["gamma"]))
    if sp == "psr":  # a prior that depends on attributes of the pulsar
        return custom_functions()["psr_psd"](log10_sigma=real_param(P["log10_sigma"]))
    if sp == "powerlaw6":
        return utils.powerlaw(log10_A=real_param(P["log10_A"]), gamma=real_param(P["gamma"]), components=6)
    if sp == "turnover":
        return gp_priors.turnover(log10_A=real_param(P["log10_A"]), gamma=real_param(P["gamma"]), lf0=real_param(P["lf0"]))
    if sp == "free":
        return gp_priors.free_spectrum(log10_rho=real_param(P["log10_rho"], size=sig["nc"]))
    if sp == "tproc":
        return gp_priors.t_process(
            log10_A=real_param(P["log10_A"]), gamma=real_param(P["gamma"]), alphas=real_param(P["alphas"], size=sig["nc"])
        )
    raise KeyError(sp)


def fourier_kwargs(sig):
    kw = dict(Tspan=tspan(sig))
    if sig.get("logf"):
        kw["logf"] = True
    if sig.get("fmin") is not None:
        kw["fmin"] = sig["fmin"]
    if sig.get("fmax") is not None:
        kw["fmax"] = sig["fmax"]
    if sig.get("modes") is not None:
        kw["modes"] = np.array(sig["modes"])
    return kw


_FN = {}


def custom_functions():
    """Functions a user would define with the library's @function decorator."""
    if _FN:
        return _FN
    from enterprise.signals.parameter import function

    @function
    def se_kernel(nodes, log10_sigma=-6.0, log10_lam=7.5):
        tm = np.abs(nodes[None, :] - nodes[:, None])
        K = 10 ** (2 * log10_sigma) * np.exp(-(tm**2) / 2 / 10 ** (2 * log10_lam))
        return K + np.eye(len(nodes)) * 10 ** (2 * log10_sigma) * 1e-2

    @function
    def common_interp(toas, tref=0.0, step=1.0, nn=3):
        return interp_nodes(toas, tref, step, nn)

    @function
    def sine_delay(toas, log10_amp=-6.0, phase=0.0, freq=2e-8):
        return 10**log10_amp * np.sin(2 * np.pi * freq * toas + phase)

    @function
    def freq_var(toaerrs, freqs, efac=1.0, idx=0.0):
        return (efac * toaerrs) ** 2 * (1400.0 / freqs) ** idx

    @function
    def wobble(log10_A=-13.0, phase=0.0):
        return log10_A + 0.1 * np.sin(phase)

    @function
    def psr_psd(f, theta, toas, log10_sigma=-6.0):
        return 10 ** (2 * log10_sigma) * (1 + np.cos(theta) ** 2) / (1 + (f * np.ptp(toas)) ** 2)

    _FN.update(freq_var=freq_var, wobble=wobble, psr_psd=psr_psd)
    _FN.update(se_kernel=se_kernel, common_interp=common_interp, sine_delay=sine_delay)
    return _FN


def interp_nodes(toas, tref, step, nn):
    """Piecewise-linear 'hat' basis on nn fixed nodes, clamped outside."""
    nodes = tref + step * np.arange(nn)
    x = np.clip((toas - tref) / step, 0, nn - 1)
    B = np.maximum(0.0, 1 - np.abs(x[:, None] - np.arange(nn)[None, :]))
    return B, nodes


def real_signal(sig):
    """One metasignal (class) of the real library for a signal spec."""
    from enterprise.signals import deterministic_signals, gp_bases, gp_signals, utils, white_signals
    from enterprise.signals.parameter import Function

    t = sig["t"]
    P = sig.get("p", {})
    fn = custom_functions()
    cf = {"coefficients": True} if sig.get("coef") else {}
    if t == "mn":
        eq = None if "log10_t2equad" not in P else real_param(P["log10_t2equad"])
        return white_signals.MeasurementNoise(
            efac=real_param(P["efac"]), log10_t2equad=eq, selection=real_selection(sig["sel"]), name=sig.get("name", "")
        )
    if t == "wn":  # a user-defined variance
        vf = fn["freq_var"](efac=real_param(P["efac"]), idx=real_param(P["idx"]))
        return white_signals.WhiteNoise(vf, selection=real_selection(sig["sel"]), name=sig["name"])
    if t == "tneq":
        return white_signals.TNEquadNoise(
            log10_tnequad=real_param(P["log10_tnequad"]), selection=real_selection(sig["sel"]), name=sig.get("name", "")
        )
    if t == "ecorr":
        return white_signals.EcorrKernelNoise(
            log10_ecorr=real_param(P["log10_ecorr"]), selection=real_selection(sig["sel"]), method=sig["method"], name=sig.get("name", "")
        )
    if t == "ecgp":
        return gp_signals.EcorrBasisModel(log10_ecorr=real_param(P["log10_ecorr"]), selection=real_selection(sig["sel"]), **cf)
    if t in ("tm", "mtm"):
        normed = np.array(sig["normed"], float) if isinstance(sig["normed"], list) else sig["normed"]
        if t == "mtm":
            return gp_signals.MarginalizingTimingModel(use_svd=sig["svd"], normed=normed)
        kw = {} if sig.get("excl") is None else {"idx_exclude": list(sig["excl"])}
        return gp_signals.TimingModel(use_svd=sig["svd"], normed=normed, **kw, **cf)
    if t == "rn":
        return gp_signals.FourierBasisGP(
            real_spectrum(sig),
            components=sig["nc"],
            combine=sig["combine"],
            selection=real_selection(sig["sel"]),
            name=sig["name"],
            **fourier_kwargs(sig),
            **cf
        )
    if t == "dmgp":
        basis = gp_bases.createfourierdesignmatrix_dm(nmodes=sig["nc"], **fourier_kwargs(sig))
        return gp_signals.BasisGP(real_spectrum(sig), basis, combine=sig["combine"], selection=real_selection(sig["sel"]), name=sig["name"], **cf)
    if t == "chrom":
        basis = gp_bases.createfourierdesignmatrix_chromatic(nmodes=sig["nc"], idx=real_param(P["idx"]), **fourier_kwargs(sig))
        return gp_signals.BasisGP(real_spectrum(sig), basis, combine=sig["combine"], name=sig["name"], **cf)
    if t == "kern":
        basis = Function(utils.linear_interp_basis, dt=sig["dt_days"] * DAY)
        pr = fn["se_kernel"](log10_sigma=real_param(P["log10_sigma"]), log10_lam=real_param(P["log10_lam"]))
        return gp_signals.BasisGP(pr, basis, combine=sig["combine"], name=sig["name"], **cf)
    if t == "ikern":  # dense private kernel on fixed nodes (columns may coincide with a common signal's)
        basis = fn["common_interp"](tref=sig["tref"], step=sig["step"], nn=sig["nn"])
        pr = fn["se_kernel"](log10_sigma=real_param(P["log10_sigma"]), log10_lam=real_param(P["log10_lam"]))
        return gp_signals.BasisGP(pr, basis, combine=sig["combine"], name=sig["name"], **cf)
    if t == "det":
        wf = fn["sine_delay"](log10_amp=real_param(P["log10_amp"]), phase=real_param(P["phase"]))
        return deterministic_signals.Deterministic(wf, selection=real_selection(sig["sel"]), name=sig["name"])
    if t == "bwm":
        wf = utils.bwm_delay(
            log10_h=real_param(P["log10_h"]),
            t0=real_param(P["t0"]),
            gwphi=real_param(P["gwphi"]),
            gwpol=real_param(P["gwpol"]),
            cos_gwtheta=real_param(P["cos_gwtheta"]),
        )
        return deterministic_signals.Deterministic(wf, name=sig["name"])
    if t == "crn":
        cf = {}
        if sig.get("coef"):  # one instantiated vector for all pulsars, or one vector for each
            cf = {"coefficients": True if sig["coef"] == "own" else real_param(["shared", sig["name"] + "_vec"], size=2 * sig["nc"])}
        return gp_signals.FourierBasisCommonGP(
            real_spectrum(sig), real_orf(sig["orf"]), components=sig["nc"], combine=sig["combine"], name=sig["name"], **fourier_kwargs(sig), **cf
        )
    if t == "ephgp":
        return gp_signals.FourierBasisCommonGP_ephem(real_spectrum(sig), components=sig["nc"], Tspan=tspan(sig), name=sig["name"])
    if t == "ckern":
        basis = fn["common_interp"](tref=sig["tref"], step=sig["step"], nn=sig["nn"])
        pr = fn["se_kernel"](log10_sigma=real_param(P["log10_sigma"]), log10_lam=real_param(P["log10_lam"]))
        return gp_signals.BasisCommonGP(pr, basis, real_orf(sig["orf"]), combine=sig["combine"], name=sig["name"])
    raise KeyError(t)


def real_orf(name):
    from enterprise.signals import utils

    return {"hd": utils.hd_orf, "dipole": utils.dipole_orf, "monopole": utils.monopole_orf}[name]()


def add_all(parts):
    """parts[0] + parts[1] + ... with the public + operator (grouped left to right)."""
    m = parts[0]
    for p in parts[1:]:
        m = m + p
    return m


class Built(object):
    """metas: the signal classes (instantiated once, shared by pulsars, as a user does)."""

    def __init__(self, model, psrs, dense_chol=False):
        from enterprise.signals import signal_base

        self.model, self.psrs = model, psrs
        _SHARED.clear()
        self.metas = [real_signal(s) for s in model["signals"]]
        self.scs = []
        for i, psr in enumerate(psrs):
            parts = [m for m, s in zip(self.metas, model["signals"]) if i in s.get("only", [i])]
            if len(parts) == 1:
                coll = signal_base.SignalCollection(parts)
            else:
                coll = add_all(parts)
            self.scs.append(coll(psr))
        lnl = signal_base.LogLikelihoodDenseCholesky if dense_chol else signal_base.LogLikelihood
        self.pta = signal_base.PTA(self.scs, lnlikelihood=lnl)


def values_for(pta, seed, pick=0):
    return {p.name: value_for(p.name, p.size, seed, pick if not isinstance(pick, dict) else pick.get(p.name, 0)) for p in pta.params}


# --------------------------------------------------------------------------- reference


def ref_selection(sel, psr):
    n = len(psr.toas)
    if sel == "none":
        return {"": np.ones(n, bool)}
    if isinstance(sel, list):
        return ref_custom_selection(sel, psr)
    if sel == "half":
        mid = 0.5 * (psr.toas.max() + psr.toas.min())
        return {"t1": psr.toas <= mid, "t2": psr.toas > mid}
    arr = {"backend": psr.backend_flags, "fe": psr.flags["fe"], "band": psr.flags["B"], "tel": psr.telescope}[sel] if sel != "none" else None
    return {str(k): np.array([str(x) == str(k) for x in arr]) for k in sorted(set(map(str, arr)))}


EPTA_BANDS = {"Band.1": [0, 1000], "Band.2": [1000, 2000], "Band.3": [2000, 3000], "Band.4": [3000, 10000]}
NG_BACKENDS = ["ASP", "GASP", "GUPPI", "PUPPI", "YUPPI", "CHIME", "VEGAS"]


def by_label(arr, wanted=None):
    """One group per label; only labels containing one of the wanted strings (None: all labels)."""
    labels = sorted({str(x) for x in arr})
    if wanted is not None:
        labels = [k for k in labels if any(k.find(w) >= 0 for w in wanted)]
    return {k: np.array([str(x) == k for x in arr], bool) for k in labels}


def ref_custom_selection(sel, psr):
    kind, arg = sel
    n = len(psr.toas)
    if kind == "ngb":
        return by_label(psr.backend_flags, NG_BACKENDS)
    if kind == "cb":
        return by_label(psr.backend_flags, [arg] if isinstance(arg, str) else arg)
    if kind == "cbd":
        if arg is None:
            return {"": np.ones(n, bool)}
        if not isinstance(arg, dict):
            return by_label(psr.backend_flags, [arg] if isinstance(arg, str) else arg)
        out = {}
        for flag, want in arg.items():
            arr = psr.backend_flags if flag == "backend" else psr.flags[flag]
            out.update(by_label(arr, [want] if isinstance(want, str) else want))
        return out
    if kind == "fband":
        out = {}
        for k, (lo, hi) in (EPTA_BANDS if arg is None else arg).items():
            m = np.array([lo <= x < hi for x in psr.freqs], bool)
            if m.any():
                out[k] = m
        return out
    if kind == "idx":
        return {arg[0]: np.array([i in set(arg[1]) for i in range(n)], bool)}
    raise KeyError(kind)


class Lookup(object):
    """Parameter resolution for the reference, by the documented names."""

    def __init__(self, params, defaults=None):
        self.params, self.defaults = params, defaults or {}
        self.used = set()

    def __call__(self, ps, name):
        if ps[0] == "const":
            return np.array(ps[1]) if isinstance(ps[1], list) else ps[1]
        if ps[0] == "later":
            self.used.add(name)
            return self.defaults[name]
        if ps[0] == "shared":
            name = ps[1]
        self.used.add(name)
        return self.params[name]


def join(*parts):
    return "_".join([p for p in parts if p])


def ref_fourier(toas, sig):
    """-> sin/cos design matrix and repeated frequencies"""
    T = tspan(sig) if tspan(sig) is not None else toas.max() - toas.min()
    nc = sig["nc"]
    if sig.get("modes") is not None:
        f = np.array(sig["modes"], float)
    elif sig.get("logf") or sig.get("fmin") is not None or sig.get("fmax") is not None:
        lo = sig["fmin"] if sig.get("fmin") is not None else 1.0 / T
        hi = sig["fmax"] if sig.get("fmax") is not None else nc / T
        k = np.arange(nc) / max(nc - 1, 1)
        f = lo * (hi / lo) ** k if sig.get("logf") else lo + (hi - lo) * k
    else:
        f = (np.arange(nc) + 1.0) / T
    F = np.empty((len(toas), 2 * len(f)))
    for j, fj in enumerate(f):
        F[:, 2 * j] = np.sin(2 * np.pi * fj * toas)
        F[:, 2 * j + 1] = np.cos(2 * np.pi * fj * toas)
    return F, f


def ref_psd(sig, f, get, name, psr=None):
    """prior variances per sin/cos coefficient (length 2 nfreq, or 6 nfreq for the ephemeris basis)"""
    P = sig["p"]
    df = np.diff(np.concatenate([[0.0], f]))
    sp = sig["spec"]
    rep = 6 if sp == "powerlaw6" else 2
    if sp in ("powerlaw", "powerlaw6", "tproc"):
        A, g = 10.0 ** get(P["log10_A"], join(name, "log10_A")), get(P["gamma"], join(name, "gamma"))
        S = A**2 / (12 * np.pi**2) * (f / FYR) ** (-g) * FYR**-3 * df
        if sp == "tproc":
            S = S * get(P["alphas"], join(name, "alphas"))
    elif sp == "nested":
        a = get(P["log10_A"], join(name, "log10_A_log10_A")) + 0.1 * np.sin(get(P["phase"], join(name, "log10_A_phase")))
        S = 10.0 ** (2 * a) / (12 * np.pi**2) * (f / FYR) ** (-get(P["gamma"], join(name, "gamma"))) * FYR**-3 * df
    elif sp == "psr":
        span = psr.toas.max() - psr.toas.min()
        S = 10.0 ** (2 * get(P["log10_sigma"], join(name, "log10_sigma"))) * (1 + psr.pos[2] ** 2) / (1 + (f * span) ** 2)
    elif sp == "turnover":
        A, g = 10.0 ** get(P["log10_A"], join(name, "log10_A")), get(P["gamma"], join(name, "gamma"))
        f0 = 10.0 ** get(P["lf0"], join(name, "lf0"))
        hc = A * (f / FYR) ** ((3 - g) / 2) / (1 + (f0 / f) ** (10.0 / 3)) ** 0.5
        S = hc**2 / (12 * np.pi**2) / f**3 * df
    elif sp == "free":
        S = 10.0 ** (2 * np.asarray(get(P["log10_rho"], join(name, "log10_rho")), float))
    return np.repeat(S, rep)


def ref_epochs(toas, mask, dt=1.0, nmin=2):
    idx = np.flatnonzero(mask)
    idx = idx[np.argsort(toas[idx], kind="stable")]
    groups, ref = [], None
    for i in idx:
        if ref is None or toas[i] - ref >= dt:
            groups.append([i])
            ref = toas[i]
        else:
            groups[-1].append(i)
    return [np.array(g) for g in groups if len(g) >= nmin]


def ref_orf(name, p1, p2, same):
    if name == "monopole":
        return 1.0 + (1e-5 if same else 0.0)
    c = float(np.dot(p1, p2))
    if name == "dipole":
        return (1.0 + 1e-5) if same else c
    if same:
        return 1.0
    x = (1 - c) / 2
    return 1.5 * x * np.log(x) - 0.25 * x + 0.5


def ref_se(nodes, ls, ll):
    d = np.subtract.outer(nodes, nodes)
    s2 = 10.0 ** (2 * ls)
    return s2 * np.exp(-0.5 * (d / 10.0**ll) ** 2) + 0.01 * s2 * np.eye(len(nodes))


def ref_linear_interp(toas, dt):
    x = np.arange(toas.min(), toas.max() + dt, dt)
    B = np.maximum(0.0, 1 - np.abs(toas[:, None] - x[None, :]) / dt)
    keep = B.sum(axis=0) != 0
    return B[:, keep], x[keep]


def ref_bwm(toas, pos, h, t0, gwphi, pol, costh):
    th = np.arccos(costh)
    m = np.array([np.sin(gwphi), -np.cos(gwphi), 0.0])
    n = np.array([-np.cos(th) * np.cos(gwphi), -np.cos(th) * np.sin(gwphi), np.sin(th)])
    k = -np.array([np.sin(th) * np.cos(gwphi), np.sin(th) * np.sin(gwphi), np.cos(th)])
    fp = 0.5 * ((m @ pos) ** 2 - (n @ pos) ** 2) / (1 + k @ pos)
    fc = (m @ pos) * (n @ pos) / (1 + k @ pos)
    dt = toas - t0 * DAY
    return 10.0**h * (np.cos(2 * pol) * fp + np.sin(2 * pol) * fc) * np.where(dt > 0, dt, 0.0)


class RefPsr(object):
    """Dense pieces for one pulsar."""

    def __init__(self, psr, signals, get):
        n = len(psr.toas)
        self.n = n
        self.nvar = np.zeros(n)  # diagonal white noise
        self.K = np.zeros((n, n))  # ECORR kernel blocks
        self.delay = np.zeros(n)
        self.M = np.zeros((n, 0))  # improper directions
        self.gps = []  # (tag, T, Phi) private
        self.commons = {}  # sig index -> (T, Phi prior without orf)
        for i, sig in signals:
            self._add(i, sig, psr, get)
        self.r = psr.residuals - self.delay

    def _add(self, i, sig, psr, get):
        t, P, name = sig["t"], sig.get("p", {}), sig.get("name", "")
        n = self.n
        if t == "mn":
            for key, mask in ref_selection(sig["sel"], psr).items():
                pre = join(psr.name, name, key)
                v = psr.toaerrs**2
                if "log10_t2equad" in P:
                    v = v + 10.0 ** (2 * get(P["log10_t2equad"], pre + "_log10_t2equad"))
                self.nvar += np.where(mask, get(P["efac"], pre + "_efac") ** 2 * v, 0.0)
        elif t == "tneq":
            for key, mask in ref_selection(sig["sel"], psr).items():
                q = 10.0 ** (2 * get(P["log10_tnequad"], join(psr.name, name, key, "log10_tnequad")))
                self.nvar += np.where(mask, q, 0.0)
        elif t == "wn":
            for key, mask in ref_selection(sig["sel"], psr).items():
                pre = join(psr.name, name, key)
                v = (get(P["efac"], pre + "_efac") * psr.toaerrs) ** 2 * (1400.0 / psr.freqs) ** get(P["idx"], pre + "_idx")
                self.nvar += np.where(mask, v, 0.0)
        elif t in ("ecorr", "ecgp"):
            for key, mask in ref_selection(sig["sel"], psr).items():
                nm = join(psr.name, "basis_ecorr" if t == "ecgp" else "", key, "log10_ecorr")
                j = 10.0 ** (2 * get(P["log10_ecorr"], nm))
                groups = ref_epochs(psr.toas, mask)
                if t == "ecorr":
                    for g in groups:
                        self.K[np.ix_(g, g)] += j
                else:
                    U = np.zeros((n, len(groups)))
                    for c, g in enumerate(groups):
                        U[g, c] = 1.0
                    self.gps.append((sig, U, np.eye(len(groups)) * j))
        elif t in ("tm", "mtm"):
            A = psr.Mmat
            if sig.get("excl") is not None:
                A = A[:, [k for k in range(A.shape[1]) if k not in sig["excl"]]]
            if isinstance(sig["normed"], list):
                A = A / np.array(sig["normed"])
            elif sig["svd"]:
                A = np.linalg.svd(A, full_matrices=False)[0]
            elif sig["normed"] is True:
                A = A / np.sqrt((A**2).sum(axis=0))
            self.M = np.hstack([self.M, A])
        elif t in ("rn", "dmgp", "chrom"):
            masks = ref_selection(sig.get("sel", "none"), psr)
            Ts, phis = [], []
            for key, mask in masks.items():
                pre = join(psr.name, name, key)
                F, f = ref_fourier(psr.toas[mask], sig)
                if t == "dmgp":
                    F = F * ((1400.0 / psr.freqs[mask]) ** 2)[:, None]
                if t == "chrom":
                    F = F * ((1400.0 / psr.freqs[mask]) ** get(P["idx"], pre + "_idx"))[:, None]
                T = np.zeros((n, F.shape[1]))
                T[mask] = F
                Ts.append(T)
                phis.append(ref_psd(sig, f, get, pre, psr))
            self.gps.append((sig, np.hstack([np.zeros((n, 0))] + Ts), np.diag(np.concatenate([np.zeros(0)] + phis))))
        elif t == "kern":
            B, nodes = ref_linear_interp(psr.toas, sig["dt_days"] * DAY)
            pre = join(psr.name, name)
            self.gps.append((sig, B, ref_se(nodes, get(P["log10_sigma"], pre + "_log10_sigma"), get(P["log10_lam"], pre + "_log10_lam"))))
        elif t == "ikern":
            B, nodes = interp_nodes(psr.toas, sig["tref"], sig["step"], sig["nn"])
            pre = join(psr.name, name)
            self.gps.append((sig, B, ref_se(nodes, get(P["log10_sigma"], pre + "_log10_sigma"), get(P["log10_lam"], pre + "_log10_lam"))))
        elif t == "det":
            for key, mask in ref_selection(sig["sel"], psr).items():
                pre = join(psr.name, name, key)
                w = 10.0 ** get(P["log10_amp"], pre + "_log10_amp") * np.sin(2 * np.pi * 2e-8 * psr.toas + get(P["phase"], pre + "_phase"))
                self.delay += np.where(mask, w, 0.0)
        elif t == "bwm":
            pre = join(psr.name, name)
            a = {k: get(P[k], pre + "_" + k) for k in ("log10_h", "t0", "gwphi", "gwpol", "cos_gwtheta")}
            self.delay += ref_bwm(psr.toas, psr.pos, a["log10_h"], a["t0"], a["gwphi"], a["gwpol"], a["cos_gwtheta"])
        elif t == "crn":
            F, f = ref_fourier(psr.toas, sig)
            self.commons[i] = (sig, F, np.diag(ref_psd(sig, f, get, name)))
        elif t == "ephgp":
            F, f = ref_fourier(psr.toas, sig)
            E = np.zeros((n, 6 * len(f)))
            for j in range(len(f)):
                for s in range(2):
                    for a in range(3):
                        E[:, 6 * j + 3 * s + a] = F[:, 2 * j + s] * psr.pos[a]
            self.commons[i] = (dict(sig, orf="monopole"), E, np.diag(ref_psd(sig, f, get, name)))
        elif t == "ckern":
            B, nodes = interp_nodes(psr.toas, sig["tref"], sig["step"], sig["nn"])
            self.commons[i] = (sig, B, ref_se(nodes, get(P["log10_sigma"], name + "_log10_sigma"), get(P["log10_lam"], name + "_log10_lam")))
        else:
            raise KeyError(t)


class RefModel(object):
    def __init__(self, model, psrs, params, defaults=None):
        get = Lookup(params, defaults)
        self.parts = [
            RefPsr(psr, [(k, s) for k, s in enumerate(model["signals"]) if i in s.get("only", [i])], get) for i, psr in enumerate(psrs)
        ]
        self.used = get.used
        self.pos = [psr.pos for psr in psrs]
        off = np.concatenate([[0], np.cumsum([p.n for p in self.parts])])
        N = off[-1]
        self.off = off
        self.white = np.zeros((N, N))
        self.G = np.zeros((N, N))  # Gaussian processes without the timing model
        nm = sum(p.M.shape[1] for p in self.parts)
        self.M = np.zeros((N, nm))
        self.r = np.concatenate([p.r for p in self.parts])
        c = 0
        for i, p in enumerate(self.parts):
            s = slice(off[i], off[i + 1])
            self.white[s, s] = np.diag(p.nvar) + p.K
            for _, T, Phi in p.gps:
                self.G[s, s] += T @ Phi @ T.T
            self.M[s, c : c + p.M.shape[1]] = p.M
            c += p.M.shape[1]
            for j, q in enumerate(self.parts):
                for k in p.commons:
                    if k in q.commons:
                        sig, T1, Phi = p.commons[k]
                        T2 = q.commons[k][1]
                        g = ref_orf(sig["orf"], psrs[i].pos, psrs[j].pos, i == j)
                        self.G[s, off[j] : off[j + 1]] += g * T1 @ Phi @ T2.T
        self.C = self.white + self.G

    def phicond(self):
        """Condition number of the (diagonally scaled) priors: how much an explicit inverse amplifies rounding."""

        def cond(A):
            d = np.sqrt(np.diag(A))
            return np.linalg.cond(A / np.outer(d, d)) if len(d) else 1.0

        worst = max([1.0] + [cond(Phi) for p in self.parts for _, _, Phi in p.gps])
        for k in set(k for p in self.parts for k in p.commons):
            who = [i for i, p in enumerate(self.parts) if k in p.commons]
            sig, _, Phi = self.parts[who[0]].commons[k]
            G = np.array([[ref_orf(sig["orf"], self.pos[i], self.pos[j], i == j) for j in who] for i in who])
            worst = max(worst, cond(G) * cond(Phi))
        return worst

    def loglike(self):
        """log N(r | 0, C + 1e40 M M^T) without the (2 pi) constant; also returns the scale of its terms."""
        u = 1e-6
        C = self.C / u**2
        r = self.r / u
        n = len(r)
        L = sl.cholesky(C, lower=True)
        ld = 2 * np.sum(np.log(np.diag(L))) + 2 * n * np.log(u)
        w = sl.solve_triangular(L, r, lower=True)
        quad = w @ w
        self.proper = 0.0
        if self.M.shape[1]:
            cs = np.sqrt((self.M**2).sum(axis=0))
            W = sl.solve_triangular(L, self.M / cs, lower=True)  # unit^-1
            A = W.T @ W
            b = W.T @ w
            LA = sl.cholesky(A, lower=True)
            # how far the timing-model prior is from improper: data variance along each column over prior variance
            self.proper = float(np.max(np.diag(np.linalg.inv(A)) * u**2 / cs**2)) / IMPROPER
            y = sl.solve_triangular(LA, b, lower=True)
            quad -= y @ y
            k = self.M.shape[1]
            ld += 2 * np.sum(np.log(np.diag(LA))) - 2 * k * np.log(u) + 2 * np.sum(np.log(cs)) + k * np.log(IMPROPER)
        val = -0.5 * (quad + ld)
        scale = abs(w @ w) + abs(ld) + n * 30.0
        cond = np.linalg.cond(C)
        return val, scale, cond
