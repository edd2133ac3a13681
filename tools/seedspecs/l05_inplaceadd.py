ID = "L05-sum-extends-left"
PROP = "L05"
EDITS = [("enterprise/signals/signal_base.py", """        elif isinstance(other, MetaCollection):
            return SignalCollection(self._metasignals + other._metasignals)
""", """        elif isinstance(other, MetaCollection):
            metasignals = self._metasignals
            metasignals += other._metasignals
            return SignalCollection(metasignals)
""")]
NEEDS = "a collection that is added to another collection and afterwards used again (for instance as the model of another pulsar)"
BREAKS = "composing two collections changes the left-hand one"
DEMO = """
from demolib import *
from enterprise.signals import signal_base, gp_signals, white_signals, parameter, utils, gp_priors
p = make_psr(1)
C = parameter.Constant
def parts():
    a = white_signals.MeasurementNoise(efac=C(1.0)) + gp_signals.TimingModel()
    b = gp_signals.FourierBasisGP(gp_priors.powerlaw(log10_A=C(-13.0), gamma=C(3.0)), components=3) + white_signals.TNEquadNoise(log10_tnequad=C(-6.0))
    return a, b
a, b = parts()
want = signal_base.PTA([a(p)]).get_lnlikelihood({})
a, b = parts()
full = a + b
got = signal_base.PTA([a(p)]).get_lnlikelihood({})
check(np.isclose(got, want), "a alone gives %s after a + b was formed, %s before" % (got, want))
"""
