"""Synthetic pulsars: duck-typed objects carrying every public attribute the signals read.

make_psr(spec) is a pure function of its JSON spec, so a case can be rebuilt from its replay file.
"""
import zlib

import numpy as np

DAY = 86400.0

BACKENDS = ["ASP", "GUPPI", "L-wide_PUPPI", "430_ASP", "CHIME", "NRT.BON", "PKS"]
FES = ["Rcvr1_2", "L-wide", "430", "430B"]
BANDS = ["10CM", "20CM", "50CM"]
TELS = ["arecibo", "gbt", "parkes"]


class SynthPulsar(object):
    """Plain attribute bag (same public attributes as enterprise's pulsar objects)."""

    def sort_data(self):
        pass


def unit(theta, phi):
    return np.array([np.sin(theta) * np.cos(phi), np.sin(theta) * np.sin(phi), np.cos(theta)])


def make_toas(rng, spec):
    """Epoch-structured TOAs: groups of 1..k TOAs within <1 s of one another."""
    nep = spec.get("nep", 6)
    kmax = spec.get("kmax", 3)
    span = spec.get("span_yr", 4.0) * 365.25 * DAY
    t0 = (53000 + 10.0 * spec.get("start", 0)) * DAY
    # jittered regular grid so that epochs are far apart (>> 1 day)
    grid = t0 + span * (np.arange(nep) + rng.uniform(-0.3, 0.3, nep)) / max(nep - 1, 1)
    toas = []
    for i, g in enumerate(grid):
        k = int(rng.integers(1, kmax + 1))
        if spec.get("singles") and i % 2 == 0:
            k = 1
        toas.extend(g + np.sort(rng.uniform(0, 0.4, k)))
    return np.array(toas)


def make_psr(spec):
    # different names give different pulsars even for equal seeds (coincident positions make ORF matrices singular)
    rng = np.random.default_rng([spec["seed"], zlib.crc32(spec.get("name", "").encode())])
    p = SynthPulsar()
    p.name = spec.get("name", "J0000+0000")
    toas = make_toas(rng, spec)
    n = len(toas)
    order = spec.get("order", "sorted")
    if order == "shuffled":
        toas = toas[rng.permutation(n)]
    p.toas = toas
    p.stoas = toas + rng.uniform(-400, 400)
    p.toaerrs = 1e-6 * rng.uniform(0.3, 3.0, n)
    if spec.get("tied"):  # many equal TOA errors
        p.toaerrs = 1e-6 * np.where(p.toaerrs > 1.2e-6, 2.0, 1.0)
    p.toaerrs = p.toaerrs * 10.0 ** (spec.get("errexp", -6) + 6)
    p.residuals = 1e-6 * rng.normal(size=n) * spec.get("res_scale", 2.0)
    p.freqs = rng.choice([430.0, 800.0, 1400.0, 1440.0, 2100.0, 3100.0], n) + rng.uniform(-20, 20, n)
    nb = spec.get("nback", 2)
    bk = list(rng.permutation(BACKENDS))[:nb]
    if nb > 1 and rng.uniform() < 0.4:  # one label the beginning of another: their parameter names sort the other way round
        bk[1] = bk[0] + "-2"
    be = np.array([bk[int(rng.integers(nb))] for _ in range(n)], dtype="U20")
    if n >= nb:  # every backend appears at least once
        be[rng.permutation(n)[:nb]] = bk
    p.backend_flags = be
    p.flags = {
        "f": be.copy(),
        "fe": np.array([FES[int(rng.integers(len(FES)))] for _ in range(n)], dtype="U20"),
        "B": np.array([BANDS[int(rng.integers(len(BANDS)))] for _ in range(n)], dtype="U20"),
        "group": np.array(["grp%d" % int(rng.integers(2)) for _ in range(n)], dtype="U20"),
    }
    p.telescope = np.array([TELS[int(rng.integers(len(TELS)))] for _ in range(n)], dtype="U20")
    if spec.get("pos") is not None:
        th, ph = spec["pos"]
    else:
        th, ph = float(np.arccos(rng.uniform(-0.95, 0.95))), float(rng.uniform(0, 2 * np.pi))
    p.theta, p.phi = th, ph
    p.pos = unit(th, ph)
    dth, dph = 1e-6 * rng.normal(size=2)
    p.pos_t = np.array([unit(th + dth * x, ph + dph * x) for x in (toas - toas.mean()) / (365.25 * DAY)])
    # planets on plausible orbits, light-seconds
    pl = np.zeros((n, 9, 6))
    for j, (a, per) in enumerate(
        [(190, 0.24), (360, 0.61), (499, 1.0), (760, 1.88), (2595, 11.86), (4780, 29.4), (9580, 84.0), (15000, 165.0), (19700, 248.0)]
    ):
        ph0 = rng.uniform(0, 2 * np.pi)
        w = 2 * np.pi / (per * 365.25 * DAY)
        x = w * toas + ph0
        inc = rng.uniform(0.3, 0.5)
        pl[:, j, 0] = a * np.cos(x)
        pl[:, j, 1] = a * np.sin(x) * np.cos(inc)
        pl[:, j, 2] = a * np.sin(x) * np.sin(inc)
        pl[:, j, 3] = -a * w * np.sin(x)
        pl[:, j, 4] = a * w * np.cos(x) * np.cos(inc)
        pl[:, j, 5] = a * w * np.cos(x) * np.sin(inc)
    p.planetssb = pl
    p.sunssb = rng.normal(size=(n, 6)) * 2.0
    # timing model: offset, spin frequency, spin-down, + optional
    x = (toas - toas.mean()) / (toas.max() - toas.min() + 1.0)
    cols = [np.ones(n), x, x**2]
    pars = ["Offset", "F0", "F1"]
    ntm = spec.get("ntm", 3)
    if ntm >= 4:
        cols.append(np.sin(2 * np.pi * toas / (365.25 * DAY)))
        pars.append("RAJ")
    if ntm >= 5:
        cols.append((1400.0 / p.freqs) ** 2)
        pars.append("DM1")
    scales = 10.0 ** rng.uniform(-3, 3, len(cols)) if spec.get("tm_scaled", True) else np.ones(len(cols))
    p.Mmat = (np.array(cols[:ntm]) * scales[:ntm, None]).T.copy()
    p.fitpars = pars[:ntm]
    p.setpars = ["DM", "PX", "POSEPOCH"]
    p.dm = 13.3
    p.dmx = None
    p.pdist = (1.0, 0.2)
    p.planets = True
    p._isort = p._iisort = slice(None, None, None)
    return p


PERM_FIELDS = ["toas", "stoas", "toaerrs", "residuals", "freqs", "backend_flags", "telescope", "pos_t", "planetssb", "sunssb", "Mmat"]


def permute_psr(p, perm):
    q = SynthPulsar()
    q.__dict__.update(p.__dict__)
    for f in PERM_FIELDS:
        setattr(q, f, getattr(p, f)[perm].copy())
    q.flags = {k: v[perm].copy() for k, v in p.flags.items()}
    return q


def clone_psr(p):
    return permute_psr(p, np.arange(len(p.toas)))
