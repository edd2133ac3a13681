ID = "L01-phidense-diag"
PROP = "L01"
EDITS = [("enterprise/signals/signal_base.py", """                Sigma = TNT + (np.diag(phiinv) if phiinv.ndim == 1 else phiinv)

                try:
                    cf = sl.cho_factor(Sigma)
                    expval = sl.cho_solve(cf, TNr)
""", """                Sigma = TNT.copy()
                # add to the diagonal
                Sigma[np.diag_indices_from(Sigma)] += phiinv if phiinv.ndim == 1 else np.diag(phiinv)

                try:
                    cf = sl.cho_factor(Sigma)
                    expval = sl.cho_solve(cf, TNr)
""")]
NEEDS = "a GP with a dense (kernel) prior in a model without common signals"
BREAKS = "the off-diagonal elements of the inverse prior are dropped"
DEMO = """
from demolib import *
from enterprise.signals import signal_base, gp_signals, white_signals, parameter, utils
p = make_psr(4)
@parameter.function
def basis(toas):
    return np.eye(len(toas)), np.arange(len(toas)) * 1.0
@parameter.function
def kern(labels, ls=3.0):
    d = labels[:, None] - labels[None, :]
    return 1e-12 * np.exp(-0.5 * d**2 / ls**2) + 1e-15 * np.eye(len(labels))
m = white_signals.MeasurementNoise(efac=parameter.Constant(1.0)) + gp_signals.BasisGP(kern(), basis(), name="k")
got = signal_base.PTA([m(p)]).get_lnlikelihood({})
x = np.arange(len(p.toas)); d = x[:, None] - x[None, :]
K = 1e-12 * np.exp(-0.5 * d**2 / 9.0) + 1e-15 * np.eye(len(x))
want = gaussian(p.residuals, K + np.diag(p.toaerrs**2)) + 0.5 * len(x) * np.log(2 * np.pi)
check(np.isclose(got, want, rtol=1e-6), "%s instead of %s" % (got, want))
"""
