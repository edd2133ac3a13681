ID = "L02-drop-basis-first"
PROP = "L02"
EDITS = [("enterprise/signals/gp_signals.py", """            self._basis, self._labels = self._bases(params=params)
""", """            # release the previous basis before the new one is built
            self._basis = self._labels = None
            basis = self._bases(params=params)
            self._basis, self._labels = basis
""")]
NEEDS = "an evaluation of a common process that raises an error in its basis function (a basis parameter is missing or no number), then one at the basis parameters from before the error"
BREAKS = "the failed evaluation has thrown away the basis, and the next evaluation at the previous parameters finds the cache valid but no basis"
DEMO = """
from demolib import *
from enterprise.signals import gp_signals, white_signals, parameter, signal_base, utils

@signal_base.function
def basis(toas, k=1.0):
    z = k * (toas - toas[0]) / 1e8
    return np.array([np.cos(z), np.sin(z)]).T.copy(), np.array([1.0, 1.0])

@signal_base.function
def prior(f, log10_A=-6.0):
    return 10.0 ** (2 * log10_A) * f

psrs = [make_psr(3), make_psr(4)]
for i, p in enumerate(psrs):
    p.name = "J000%d+0000" % i
s = white_signals.MeasurementNoise(efac=parameter.Constant(1.0))
s += gp_signals.BasisCommonGP(prior(), basis(k=parameter.Uniform(0, 3)), utils.hd_orf(), name="gw")
def model():
    return signal_base.PTA([s(p) for p in psrs])
pta = model()
x = {p.name: 1.0 for p in pta.params}
pta.get_lnlikelihood(x)
try:
    pta.get_lnlikelihood({n: "one" for n in x})
except Exception:
    pass
try:
    got = pta.get_lnlikelihood(x)
except Exception as e:
    got = repr(e)
want = model().get_lnlikelihood(x)
check(isinstance(got, float) and abs(got - want) < 1e-6, (got, want))
"""
