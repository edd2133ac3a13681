ID = "G01-draw-lower-factor"
PROP = "G01"
EDITS = [("enterprise/signals/utils.py", """                        [sl.solve_triangular(c.T, np.random.randn(c.shape[0]), lower=False) for c in ch]
""", """                        [sl.solve_triangular(c, np.random.randn(c.shape[0]), lower=True) for c in ch]
""")]
NEEDS = "random draws from a model without common signals whose coefficients are correlated a posteriori"
BREAKS = "draws have covariance L^-1 L^-T in place of L^-T L^-1"
DEMO = """
from demolib import *
from enterprise.signals import signal_base, gp_signals, white_signals, parameter, gp_priors, utils
p = make_psr(3)
C = parameter.Constant
m = white_signals.MeasurementNoise(efac=C(1.0)) + gp_signals.FourierBasisGP(gp_priors.powerlaw(log10_A=C(-12.0), gamma=C(2.0)), components=2, Tspan=3e8, combine=False)
pta = signal_base.PTA([m(p)])
cgp = utils.ConditionalGP(pta)
Sigma = pta.get_TNT({})[0] + np.diag(pta.get_phiinv({})[0])
cov = np.linalg.inv(Sigma)
np.random.seed(4)
x = np.array([d["J0000+0000_red_noise_coefficients"] for d in cgp.sample_coefficients({}, 4000)])
got = np.cov(x.T)
s = np.sqrt(np.diag(cov))
check(np.all(np.abs(got - cov) < 0.15 * np.outer(s, s)), "sample covariance differs: %s" % (np.abs(got - cov) / np.outer(s, s)).max())
"""
