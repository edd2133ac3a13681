ID = "L04-rounded-hash"
PROP = "L04"
EDITS = [("enterprise/signals/signal_base.py", """                            colhash = hash(column.tobytes())
""", """                            # guard against rounding differences between bases
                            colhash = hash(np.round(column, 12).tobytes())
""")]
NEEDS = "two bases with fixed columns that differ only by less than 5e-13 in absolute terms: small-valued bases such as user bases in seconds"
BREAKS = "columns that differ are merged"
DEMO = """
from demolib import *
from enterprise.signals import gp_signals, gp_priors, parameter, signal_base, utils, white_signals
C = parameter.Constant
p = make_psr(3)
@parameter.function
def basis(toas, k=1):
    x = (toas - toas.mean()) / 1e8
    return 1e-13 * np.array([np.sin(k * x), np.cos(k * x)]).T, np.array([1.0, 2.0])
@parameter.function
def prior(f, s=1.0):
    return 1e14 * s * np.ones(len(f))
def ll(combine):
    m = white_signals.MeasurementNoise(efac=C(1.0)) + gp_signals.BasisGP(prior(s=C(1.0)), basis(k=C(1)), combine=combine, name="a") + gp_signals.BasisGP(prior(s=C(1.0)), basis(k=C(3)), combine=combine, name="b")
    return signal_base.PTA([m(p)]).get_lnlikelihood({})
check(np.isclose(ll(True), ll(False), rtol=1e-9), "combine changes the likelihood: %r %r" % (ll(True), ll(False)))
"""
