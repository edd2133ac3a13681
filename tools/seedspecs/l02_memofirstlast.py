ID = "L02-memo-checks-ends"
PROP = "L02"
EDITS = [("enterprise/signals/signal_base.py", """        return isinstance(arg, Sequence) and len(key) == len(arg) and all(e1 is e2 for e1, e2 in zip(key, arg))
""", """        return isinstance(arg, Sequence) and len(key) == len(arg) and key[0] is arg[0] and key[-1] is arg[-1]
""")]
NEEDS = "a correlated array of three or more pulsars, evaluated twice, with only a middle pulsar's noise parameters changed"
BREAKS = "the block-diagonal T^T N^-1 T of the previous evaluation is reused"
DEMO = """
from demolib import *
from enterprise.signals import signal_base, gp_signals, white_signals, parameter, utils, gp_priors
psrs = [make_psr(i, name="J000%d+0000" % i) for i in range(3)]
def model():
    wn = white_signals.MeasurementNoise(efac=parameter.Uniform(0.5, 3))
    gp = gp_signals.FourierBasisCommonGP(gp_priors.powerlaw(log10_A=parameter.Uniform(-18, -11)("a"), gamma=parameter.Uniform(0, 7)("g")), utils.hd_orf(), components=2, Tspan=1.2e8)
    return signal_base.PTA([(wn + gp)(p) for p in psrs])
A = {"a": -12.5, "g": 3.0, "J0000+0000_efac": 1.0, "J0001+0000_efac": 1.0, "J0002+0000_efac": 1.0}
B = dict(A, **{"J0001+0000_efac": 2.0})
pta = model()
pta.get_lnlikelihood(A)
check(np.isclose(pta.get_lnlikelihood(B), model().get_lnlikelihood(B)), "stale blocks used")
"""
