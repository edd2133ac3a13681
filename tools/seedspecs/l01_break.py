ID = "L01-stops-at-empty-pulsar"
PROP = "L01"
EDITS = [("enterprise/signals/signal_base.py", """                if TNr is None:
                    continue
""", """                if TNr is None:
                    break
""")]
NEEDS = "an array in which a pulsar without any Gaussian process precedes others with"
BREAKS = "the Gaussian processes of the later pulsars are left out of the likelihood"
DEMO = """
from demolib import *
from enterprise.signals import parameter, signal_base, white_signals, gp_signals, gp_priors
C = parameter.Constant
wn = white_signals.MeasurementNoise(efac=C(1.0)) + white_signals.TNEquadNoise(log10_tnequad=C(-7.0))
rn = gp_signals.FourierBasisGP(gp_priors.powerlaw(log10_A=C(-12.0), gamma=C(3.0)), components=3)
a, b = make_psr(1, name="J0001+0001"), make_psr(2, name="J0002+0002")
x = signal_base.PTA([wn(a), (wn + rn)(b)]).get_lnlikelihood({})
y = signal_base.PTA([wn(a)]).get_lnlikelihood({}) + signal_base.PTA([(wn + rn)(b)]).get_lnlikelihood({})
check(np.isclose(x, y), "%r %r" % (x, y))
"""
