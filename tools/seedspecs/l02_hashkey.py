ID = "L02-hashed-cache-key"
PROP = "L02"
EDITS = [("enterprise/signals/signal_base.py", "            key = tuple(ret)\n", "            # keep the cache keys short: they can be long for vector parameters\n            key = hash(tuple(ret))\n")]
NEEDS = "two successive evaluations in which a parameter goes from exactly -1.0 to exactly -2.0 (equal hashes)"
BREAKS = "cached quantities are reused for different parameter values"
DEMO = """
from demolib import *
from enterprise.signals import parameter, signal_base, white_signals, gp_signals
psr = make_psr(1)
@parameter.function
def var(toaerrs, logn=0.0):
    return toaerrs**2 * 10 ** (2 * logn)
model = white_signals.WhiteNoise(var(logn=parameter.Uniform(-5, 5)), name="w") + gp_signals.TimingModel()
pta = signal_base.PTA([model(psr)])
name = pta.param_names[0]
a = pta.get_lnlikelihood({name: -1.0})
b = pta.get_lnlikelihood({name: -2.0})
fresh = signal_base.PTA([model(psr)]).get_lnlikelihood({name: -2.0})
check(a != b and abs(b - fresh) < 1e-6 * abs(fresh), "likelihood after a change of the parameter: %s, fresh %s" % (b, fresh))
"""
