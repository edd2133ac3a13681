ID = "L02-delay-buffer"
PROP = "L02"
EDITS = [("enterprise/signals/deterministic_signals.py", """            delay = np.zeros(self._ntoas)
            for key, mask in zip(self._keys, self._masks):
""", """            if getattr(self, "_delay", None) is None:
                self._delay = np.zeros(self._ntoas)
            delay = self._delay
            for key, mask in zip(self._keys, self._masks):
""")]
NEEDS = "a sequence of evaluations A, B, A with a deterministic signal (two cached results share one buffer)"
BREAKS = "the delay returned from the cache is the one of the last evaluation"
DEMO = """
from demolib import *
from enterprise.signals import deterministic_signals as ds, white_signals, parameter, signal_base

@signal_base.function
def wave(toas, amp=1.0):
    return 1e-6 * amp * np.sin(toas / 1e7)

psr = make_psr(3)
m = ds.Deterministic(wave(amp=parameter.Uniform(-3, 3)), name="wave")(psr)
n = m.params[0].name
m.get_delay({n: 1.0})
m.get_delay({n: 2.0})
got = m.get_delay({n: 1.0})
check(np.allclose(got, 1e-6 * np.sin(psr.toas / 1e7)), got[:3])
"""
