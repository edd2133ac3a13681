"""Builders of models outside the main model language (used for history and aliasing checks)."""
import numpy as np

from . import models, synth

DAY = 86400.0

models.RANGES[:0] = [
    ("frame_drift_rate", -1e-9, 1e-9),
    ("d_jupiter_mass", -5e-11, 5e-11),
    ("d_saturn_mass", -5e-11, 5e-11),
    ("d_uranus_mass", -5e-11, 5e-11),
    ("d_neptune_mass", -5e-11, 5e-11),
    ("jup_orb_elements", -0.05, 0.05),
    ("sat_orb_elements", -0.5, 0.5),
    ("dmefac", 0.5, 2.0),
    ("log10_dmequad", -5.0, -3.0),
    ("dmjump", -0.01, 0.01),
    ("_coefficients", -1e-6, 1e-6),
    ("coefvec", -1e-6, 1e-6),
]


def add_wideband(psr, spec):
    """Give a synthetic pulsar wideband DM measurements and DMX intervals."""
    rng = np.random.default_rng([spec["seed"], 77])
    n = len(psr.toas)
    psr.dm = 13.3
    psr.flags["pp_dm"] = np.array(["%.12f" % (13.3 + 1e-3 * x) for x in rng.normal(size=n)])
    psr.flags["pp_dme"] = np.array(["%.3e" % x for x in 10 ** rng.uniform(-4.5, -3, n)])
    k = spec.get("ndmx", 2)
    # interval edges strictly between distinct observing times
    mjd = psr.stoas / DAY
    s = np.sort(mjd)
    gaps = [i for i in range(1, n) if s[i] - s[i - 1] > 1.0]
    cut = sorted(rng.permutation(gaps)[: k - 1]) if gaps else []
    edges = [s[0] - 1.0] + [0.5 * (s[i] + s[i - 1]) for i in cut] + [s[-1] + 1.0]
    order = list(rng.permutation(len(edges) - 1)) if spec.get("dmx_shuffled") else list(range(len(edges) - 1))
    psr.dmx = {}
    cols, pars = [psr.Mmat], list(psr.fitpars)
    for j, i in enumerate(order):
        key = "DMX_%04d" % (j + 1)
        psr.dmx[key] = {
            "DMX": float(1e-3 * rng.normal()),
            "DMXerr": 1e-4,
            "DMXR1": float(edges[i]),
            "DMXR2": float(edges[i + 1]),
            "fit": True,
        }
        inside = (edges[i] <= mjd) & (mjd < edges[i + 1])
        cols.append((inside / (2.41e-4 * psr.freqs**2))[:, None])
        pars.append(key)
    psr.Mmat = np.hstack(cols)
    psr.fitpars = pars
    return psr


KINDS = ["phys_epoch", "phys_full", "physgp", "wideband", "coef", "coefsel", "comcoef", "tmcoef", "phases"]


def build(kind, psrs, opt=0):
    """-> PTA; opt is a small integer selecting a variant."""
    from enterprise.signals import deterministic_signals, gp_signals, parameter, selections, signal_base, utils, white_signals
    from enterprise.signals.selections import Selection

    U = parameter.Uniform
    mn = white_signals.MeasurementNoise(efac=U(0.1, 5), log10_t2equad=U(-10, -4) if opt % 2 else None)
    pl = utils.powerlaw(log10_A=U(-20, -10), gamma=U(0, 8))
    bk = Selection(selections.by_backend)
    parts = [mn]
    if kind in ("phys_epoch", "phys_full"):
        parts.append(
            deterministic_signals.PhysicalEphemerisSignal(
                use_epoch_toas=kind == "phys_epoch", sat_orb_elements=bool(opt % 2), frame_drift_rate=True, d_uranus_mass=True
            )
        )
        parts.append(gp_signals.TimingModel())
    elif kind == "physgp":
        parts.append(gp_signals.FourierBasisCommonGP_physicalephem(sat_orb_elements=None if opt % 2 else 0.5))
        parts.append(gp_signals.FourierBasisGP(pl, components=2, Tspan=5 * models.YR, name="rn"))
    elif kind == "wideband":
        parts.append(
            gp_signals.WidebandTimingModel(
                dmefac=U(0.1, 10),
                log10_dmequad=U(-8, 0) if opt % 2 else None,
                dmjump=U(-1, 1) if opt % 3 == 0 else None,
                selection=bk if opt % 2 else Selection(selections.no_selection),
                dmjump_selection=Selection(selections.by_frontend),
            )
        )
        parts.append(gp_signals.FourierBasisGP(pl, components=2, Tspan=5 * models.YR, name="rn"))
    elif kind in ("coef", "coefsel"):
        parts.append(
            gp_signals.FourierBasisGP(
                pl,
                components=2,
                Tspan=5 * models.YR,
                coefficients=True,
                name="rn",
                selection=bk if kind == "coefsel" else Selection(selections.no_selection),
            )
        )
        parts.append(gp_signals.MarginalizingTimingModel() if opt % 2 else gp_signals.TimingModel())
    elif kind == "comcoef":
        c = True if opt % 2 else U(-1, 1, size=4)("coefvec")
        parts.append(gp_signals.FourierBasisCommonGP(pl, utils.hd_orf(), components=2, Tspan=5 * models.YR, coefficients=c, name="gw"))
        parts.append(gp_signals.FourierBasisGP(pl, components=3, Tspan=5 * models.YR, name="rn"))
    elif kind == "tmcoef":
        parts.append(gp_signals.TimingModel(coefficients=True))
        parts.append(gp_signals.EcorrBasisModel(U(-10, -5), coefficients=bool(opt % 2)))
    elif kind == "phases":
        n = [1, 17, 12345][opt % 3]
        parts.append(gp_signals.FourierBasisGP(pl, components=2, Tspan=5 * models.YR, pseed=n, pshift=bool(opt % 2), name="rn"))
        if opt < 3:
            parts.append(gp_signals.FourierBasisCommonGP(pl, utils.hd_orf(), components=2, Tspan=5 * models.YR, pseed=n + 1, name="gw"))
        parts.append(gp_signals.TimingModel())
    else:
        raise KeyError(kind)
    m = models.add_all(parts)
    return signal_base.PTA([m(p) for p in psrs])


def pulsars(case):
    psrs = [synth.make_psr(s) for s in case["psrs"]]
    if case["kind"] == "wideband":
        for p, s in zip(psrs, case["psrs"]):
            add_wideband(p, s)
    return psrs
