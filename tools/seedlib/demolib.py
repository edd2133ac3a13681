"""Small synthetic pulsars and helpers for the demonstrations."""
import os
import sys

sys.path.insert(0, os.getcwd())
import logging
import warnings

import numpy as np

warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
DAY = 86400.0


class Psr(object):
    def sort_data(self):
        pass


def make_psr(seed=0, name="J0000+0000", nep=8, kmax=3, sort=True, ks=None):
    rng = np.random.default_rng(seed)
    p = Psr()
    p.name = name
    grid = 53000 * DAY + 4 * 365.25 * DAY * (np.arange(nep) + rng.uniform(-0.3, 0.3, nep)) / (nep - 1)
    toas = []
    for i, g in enumerate(grid):
        k = ks[i] if ks is not None else int(rng.integers(1, kmax + 1))
        toas.extend(g + np.sort(rng.uniform(0, 0.4, k)))
    toas = np.array(toas)
    n = len(toas)
    if not sort:
        toas = toas[rng.permutation(n)]
    p.toas = toas
    p.stoas = toas + 100.0
    p.toaerrs = 1e-6 * rng.uniform(0.5, 2, n)
    p.residuals = 2e-6 * rng.normal(size=n)
    p.freqs = rng.choice([430.0, 800.0, 1400.0, 2100.0], n) + rng.uniform(-20, 20, n)
    p.backend_flags = np.array(["ASP", "GUPPI"], dtype="U20")[rng.integers(0, 2, n)]
    p.flags = {"f": p.backend_flags.copy(), "fe": np.array(["Rcvr1_2", "430"], dtype="U20")[rng.integers(0, 2, n)], "B": np.array(["10CM", "20CM"], dtype="U20")[rng.integers(0, 2, n)]}
    p.telescope = np.array(["gbt"] * n)
    p.theta, p.phi = float(np.arccos(rng.uniform(-0.9, 0.9))), float(rng.uniform(0, 6.28))
    p.pos = np.array([np.sin(p.theta) * np.cos(p.phi), np.sin(p.theta) * np.sin(p.phi), np.cos(p.theta)])
    p.pos_t = np.tile(p.pos, (n, 1))
    p.planetssb = rng.normal(size=(n, 9, 6)) * 500
    p.sunssb = rng.normal(size=(n, 6))
    x = (toas - toas.mean()) / (toas.max() - toas.min())
    p.Mmat = np.array([np.ones(n), x, x**2]).T.copy()
    p.fitpars = ["Offset", "F0", "F1"]
    p.setpars = []
    p.dm, p.dmx, p.pdist, p.planets = 10.0, None, (1.0, 0.2), True
    p._isort = p._iisort = slice(None, None, None)
    return p


def gaussian(r, C):
    """Log-likelihood of zero-mean Gaussian residuals."""
    s, ld = np.linalg.slogdet(2 * np.pi * C)
    return -0.5 * (r @ np.linalg.solve(C, r) + ld)


def check(ok, msg):
    if not ok:
        print("FAIL:", msg)
        sys.exit(1)
