ID = "L05-ecorr-before-efac"
PROP = "L05"
EDITS = [("enterprise/signals/gp_signals.py", """            return MarginalizingNmat(self.Mmat, self.Nmat + other)
""", """            # nothing to add to yet
            return MarginalizingNmat(self.Mmat, self.Nmat + other if np.size(self.Nmat) > 1 or hasattr(other, "_jvec") else other)
""")]
NEEDS = "a marginalizing timing model, with the ECORR kernel added before the measurement noise"
BREAKS = "the ECORR term is dropped from the noise"
DEMO = """
from demolib import *
from enterprise.signals import gp_signals, parameter, signal_base, white_signals
C = parameter.Constant
p = make_psr(3)
a = lambda: white_signals.MeasurementNoise(efac=C(1.0))
b = lambda: white_signals.EcorrKernelNoise(log10_ecorr=C(-6.0), method="sherman-morrison")
t = lambda: gp_signals.MarginalizingTimingModel()
l = [signal_base.PTA([m(p)]).get_lnlikelihood({}) for m in (a() + b() + t(), b() + a() + t(), t() + b() + a())]
check(np.allclose(l, l[0]), "likelihoods differ by order: %s" % l)
"""
