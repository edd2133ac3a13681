ID = "L03-clique-det-underflow"
PROP = "L03"
EDITS = [("enterprise/signals/signal_base.py", """                            ld += np.linalg.slogdet(phi2)[1]
""", """                            ld += np.log(np.linalg.det(phi2))
""")]
NEEDS = "a correlated group of many coefficients (25 or so), so that the product of variances underflows: an array of that many pulsars, or a common process with a dense prior"
BREAKS = "the log-determinant of the prior is -inf"
DEMO = """
from demolib import *
from enterprise.signals import gp_signals, gp_priors, parameter, signal_base, utils, white_signals
C = parameter.Constant
ps = [make_psr(i, name="P%02d" % i, nep=4, kmax=1) for i in range(30)]
m = white_signals.MeasurementNoise(efac=C(1.0)) + gp_signals.FourierBasisCommonGP(gp_priors.powerlaw(log10_A=C(-14.0), gamma=C(4.33)), utils.hd_orf(), components=2, Tspan=2e8)
pta = signal_base.PTA([m(p) for p in ps])
ld = pta.get_phiinv({}, logdet=True, method="cliques")[1]
want = np.linalg.slogdet(pta.get_phi({}) * 1e12)[1] - 120 * np.log(1e12)
check(np.isclose(ld, want), "log-determinant %s, should be %s" % (ld, want))
"""
