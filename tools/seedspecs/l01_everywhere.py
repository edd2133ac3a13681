ID = "L03-common-in-all"
PROP = "L03"
EDITS = [("enterprise/signals/signal_base.py", """csdict in commonsignals.items() if len(csdict) > 1}
""", """csdict in commonsignals.items() if len(csdict) >= max(2, len(self._signalcollections) - 1)}
""")]
NEEDS = "a common process in at least two pulsars and absent from at least two"
BREAKS = "the correlations of that process are left out"
DEMO = """
from demolib import *
from enterprise.signals import gp_signals, white_signals, parameter, utils, signal_base
psrs = [make_psr(i, name="J000%d+0000" % i) for i in range(4)]
T = 4 * 365.25 * DAY
gw = gp_signals.FourierBasisCommonGP(utils.powerlaw(log10_A=parameter.Constant(-14.0), gamma=parameter.Constant(3.0)), utils.hd_orf(), components=2, Tspan=T, name="gw")
mn = white_signals.TNEquadNoise(log10_tnequad=parameter.Constant(-8.0)) + white_signals.MeasurementNoise(efac=parameter.Constant(1.0))
pta = signal_base.PTA([(mn + gw)(psrs[0]), (mn + gw)(psrs[1]), mn(psrs[2]), mn(psrs[3])])
phi = pta.get_phi({})
phi = np.asarray(phi)
check(phi.ndim == 2, "no correlations: %s" % (phi.shape,))
"""
