ID = "W02-same-shape-same-array"
PROP = "W02"
EDITS = [("enterprise/signals/signal_base.py", """                zn = np.dot(niblock, Zblock)
                xn = np.dot(niblock, Xblock)
                ZNX -= beta * np.outer(zn.T, xn)
""", """                zn = np.dot(niblock, Zblock)
                xn = zn if X.shape == Z.shape else np.dot(niblock, Xblock)
                ZNX -= beta * np.outer(zn.T, xn)
""")]
NEEDS = "Sherman-Morrison solve with two different matrices of the same shape (the design matrix and a basis with as many columns)"
BREAKS = "the epoch correction uses the left matrix twice"
DEMO = """
from demolib import *
from enterprise.signals import gp_signals, gp_priors, parameter, signal_base, white_signals
C = parameter.Constant
p = make_psr(3)
p.Mmat = np.column_stack([p.Mmat, p.Mmat[:, 2] ** 1.5])
def ll(method):
    m = white_signals.MeasurementNoise(efac=C(1.0)) + white_signals.EcorrKernelNoise(log10_ecorr=C(-5.5), method=method) + gp_signals.MarginalizingTimingModel()
    m += gp_signals.FourierBasisGP(gp_priors.powerlaw(log10_A=C(-13.0), gamma=C(3.0)), components=2)
    return signal_base.PTA([m(p)]).get_lnlikelihood({})
check(np.isclose(ll("sherman-morrison"), ll("block"), rtol=1e-8), "%r %r" % (ll("sherman-morrison"), ll("block")))
"""
