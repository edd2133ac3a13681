ID = "A01-sum-own-likelihood"
PROP = "A01"
EDITS = [("enterprise/signals/signal_base.py", """            return PTA(self._signalcollections + other._signalcollections, lnlikelihood=self.lnlikelihood)
""", """            lnlikelihood = self.lnlikelihood if self.lnlikelihood is not LogLikelihood else other.lnlikelihood
            self._signalcollections.extend(other._signalcollections)
            return PTA(self._signalcollections, lnlikelihood=lnlikelihood)
""")]
NEEDS = "using the first PTA again after it was added to another one"
BREAKS = "the first PTA gains the pulsars of the second one"
DEMO = """
from demolib import *
from enterprise.signals import white_signals, parameter, signal_base
psrs = [make_psr(i, name="J000%d+0000" % i) for i in range(2)]
mn = white_signals.TNEquadNoise(log10_tnequad=parameter.Constant(-8.0)) + white_signals.MeasurementNoise(efac=parameter.Uniform(0.5, 2))
a, b = signal_base.PTA([mn(psrs[0])]), signal_base.PTA([mn(psrs[1])])
before = [p.name for p in a.params]
a + b
check([p.name for p in a.params] == before, [p.name for p in a.params])
"""
