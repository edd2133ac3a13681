ID = "W01-equad-floor"
PROP = "W01"
EDITS = [("enterprise/signals/white_signals.py", "return efac**2 * (toaerrs**2 + 10 ** (2 * log10_t2equad))", "return efac**2 * (toaerrs**2 + np.maximum(10 ** (2 * log10_t2equad), 1e-18))")]
NEEDS = "an EQUAD below 1 ns with TOA errors of a few ns"
BREAKS = "the variance keeps a floor of 1 ns^2: an EQUAD going to zero does not switch it off"
DEMO = """
from demolib import *
from enterprise.signals import white_signals, parameter
p = make_psr(2)
p.toaerrs = p.toaerrs * 1e-3
s = white_signals.MeasurementNoise(efac=parameter.Constant(1.2), log10_t2equad=parameter.Uniform(-12, -5))(p)
for q in (-11.0, -9.5, -7.0):
    got = np.asarray(s.get_ndiag({s.params[0].name: q}))
    check(np.allclose(got, 1.2**2 * (p.toaerrs**2 + 10 ** (2 * q)), rtol=1e-9, atol=0), "variance at log10_t2equad=%s" % q)
"""
