ID = "L03-pulsar-cliques-last"
PROP = "L03"
EDITS = [
    ("enterprise/signals/signal_base.py", "                self._resetcliques(Phi.shape[0])\n                self._setpulsarcliques(slices, phis)\n", "                self._resetcliques(Phi.shape[0])\n"),
    ("enterprise/signals/signal_base.py", "                        Phi[block2, block1][np.ix_(idx2, idx1)] += crossdiag\n\n            return Phi\n", "                        Phi[block2, block1][np.ix_(idx2, idx1)] += crossdiag\n\n            if cliques:\n                self._setpulsarcliques(slices, phis)\n\n            return Phi\n"),
]
NEEDS = "a correlated common process with a dense prior (or columns shared with a dense prior) and inversion by cliques"
BREAKS = "the inverse prior ignores correlations between pulsars of columns that have a dense prior in one pulsar"
DEMO = """
from demolib import *
from enterprise.signals import parameter, signal_base, white_signals, gp_signals, utils
psrs = [make_psr(1, "J1"), make_psr(2, "J2")]
@parameter.function
def basis(toas):
    x = (toas - 53000 * DAY) / (1000 * DAY)
    return np.array([x, x**2, np.sin(x)]).T.copy(), np.arange(3.0)
@parameter.function
def prior(nodes, log10_s=-7):
    return 10 ** (2 * log10_s) * (np.exp(-np.subtract.outer(nodes, nodes) ** 2) + 1e-3 * np.eye(len(nodes)))
gp = gp_signals.BasisCommonGP(prior(log10_s=parameter.Uniform(-8, -6)), basis(), utils.hd_orf(), name="c")
model = white_signals.MeasurementNoise(efac=parameter.Constant(1.0)) + gp
pta = signal_base.PTA([model(p) for p in psrs])
x = {pta.param_names[0]: -6.5}
Phi = np.array(pta.get_phi(x))
inv, ld = pta.get_phiinv(x, logdet=True, method="cliques")
check(np.max(np.abs(Phi @ np.array(inv) - np.eye(len(Phi)))) < 1e-6, "phiinv is not the inverse of phi")
check(abs(ld - np.linalg.slogdet(Phi)[1]) < 1e-6, "log-determinant")
"""
