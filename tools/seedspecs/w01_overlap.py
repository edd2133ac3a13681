ID = "W01-last-selection-wins"
PROP = "W01"
EDITS = [("enterprise/signals/white_signals.py", """                ret += self._ndiag[key](params=params) * mask
""", """                ret[mask] = self._ndiag[key](params=params)[mask]
""")]
NEEDS = "a user selection whose groups overlap (TOAs in two groups)"
BREAKS = "the noise of a TOA that belongs to two groups is that of the last group, not the sum"
DEMO = """
from demolib import *
from enterprise.signals import signal_base, white_signals, parameter, selections
p = make_psr(1)
def both(freqs):
    return {"all": freqs > 0, "low": freqs < 1000.0}
s = white_signals.TNEquadNoise(log10_tnequad=parameter.Uniform(-10, -5), selection=selections.Selection(both))
pta = signal_base.PTA([(s + white_signals.MeasurementNoise(efac=parameter.Constant(1.0)))(p)])
d = {"J0000+0000_all_log10_tnequad": -6.0, "J0000+0000_low_log10_tnequad": -5.5}
want = p.toaerrs**2 + 1e-12 + 1e-11 * (p.freqs < 1000.0)
check(np.allclose(pta.get_ndiag(d)[0], want, rtol=1e-9, atol=0), "variances are not the sums")
"""
