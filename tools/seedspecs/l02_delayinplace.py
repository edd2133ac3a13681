ID = "L02-delay-in-place"
PROP = "L02"
EDITS = [("enterprise/signals/signal_base.py", """            delays = [signal.get_delay(params) for signal in self._signals]
            return sum(delay for delay in delays if delay is not None)
""", """            delays = [signal.get_delay(params) for signal in self._signals]
            delays = [delay for delay in delays if delay is not None]
            total = delays.pop(0) if delays else 0
            for delay in delays:
                total += delay
            return total
""")]
NEEDS = "a deterministic signal first in the model, another one later and two evaluations where the parameters of the first do not change (its delay comes from the cache) and those of the second do"
BREAKS = "the delay of the second signal is accumulated in the cached delay of the first one"
DEMO = """
from demolib import *
from enterprise.signals import deterministic_signals as ds, white_signals, parameter, signal_base, utils

@signal_base.function
def wave(toas, amp=1.0):
    return 1e-6 * amp * np.sin(toas / 1e7)

@signal_base.function
def ramp(toas, slope=1.0):
    return 1e-6 * slope * (toas - toas.mean()) / 1e7

psr = make_psr(3)
s = ds.Deterministic(wave(amp=parameter.Uniform(-3, 3)), name="wave")
s += ds.Deterministic(ramp(slope=parameter.Uniform(-3, 3)), name="ramp")
s += white_signals.MeasurementNoise(efac=parameter.Constant(1.0))
m = s(psr)
names = [p.name for p in m.params]
def par(a, b):
    return {n: (a if "wave" in n else b) for n in names}
m.get_delay(par(1.0, 1.0))
got = m.get_delay(par(1.0, 2.0))
want = wave(psr.toas, amp=1.0) + ramp(psr.toas, slope=2.0)
check(np.allclose(got, want, rtol=1e-9, atol=1e-15), np.abs(got - want).max())
"""
