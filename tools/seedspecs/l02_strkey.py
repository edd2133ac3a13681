ID = "L02-printed-cache-key"
PROP = "L02"
EDITS = [("enterprise/signals/signal_base.py", """                        ret.append((key, tuple(params[key])))
""", """                        ret.append((key, str(params[key])))
""")]
NEEDS = "two evaluations in which a vector parameter changes by less than the printed precision (eight digits), or in the middle of a vector of more than 1000 elements"
BREAKS = "cached quantities are reused for a different value of a vector parameter"
DEMO = """
from demolib import *
from enterprise.signals import parameter, signal_base, white_signals, gp_signals, deterministic_signals
p = make_psr(4)
@parameter.function
def wave(toas, amps=None):
    return sum(a * np.cos((k + 1) * toas / 1e7) for k, a in enumerate(amps))
det = deterministic_signals.Deterministic(wave(amps=parameter.Uniform(-1, 1, size=3)), name="w")
model = white_signals.MeasurementNoise(efac=parameter.Constant(1.0)) + det + gp_signals.TimingModel()
pta = signal_base.PTA([model(p)])
n = pta.params[0].name
a = np.array([1e-6, 2e-6, 3e-6])
pta.get_delay({n: a})
b = a * (1 + 3e-10)
got = pta.get_delay({n: b})[0]
want = signal_base.PTA([model(p)]).get_delay({n: b})[0]
check(np.array_equal(got, want), "largest difference %r" % np.max(np.abs(got - want)))
"""
