ID = "L06-span-first-last"
PROP = "L06"
EDITS = [("enterprise/signals/gp_bases.py", """    T = Tspan if Tspan is not None else toas.max() - toas.min()

    # define sampling frequencies
""", """    T = Tspan if Tspan is not None else toas[-1] - toas[0]

    # define sampling frequencies
""")]
NEEDS = "TOAs that are not sorted by time, and no explicit Tspan"
BREAKS = "the time span of a Fourier basis comes from the first and last TOA in file order"
DEMO = """
from demolib import *
from enterprise.signals import gp_signals, gp_priors, parameter, signal_base, white_signals
C = parameter.Constant
p = make_psr(3)
def ll(p):
    m = white_signals.MeasurementNoise(efac=C(1.0)) + gp_signals.FourierBasisGP(gp_priors.powerlaw(log10_A=C(-13.0), gamma=C(3.0)), components=3)
    return signal_base.PTA([m(p)]).get_lnlikelihood({})
l1 = ll(p)
i = np.random.default_rng(0).permutation(len(p.toas))
for a in ("toas", "stoas", "toaerrs", "residuals", "freqs", "Mmat"):
    setattr(p, a, getattr(p, a)[i])
check(np.isclose(l1, ll(p)), "order of TOAs matters: %s %s" % (l1, ll(p)))
"""
