ID = "S01-bands-pruned"
PROP = "S01"
EDITS = [("enterprise/signals/selections.py", """        return {
            val: (freqs >= fl) & (freqs < fh) for val, (fl, fh) in bands.items() if any((freqs >= fl) & (freqs < fh))
        }
""", """        bands = {val: (fl, fh) for val, (fl, fh) in bands.items() if any((freqs >= fl) & (freqs < fh))}
        return {val: (freqs >= fl) & (freqs < fh) for val, (fl, fh) in bands.items()}
""")]
NEEDS = "one frequency-band selection used for two pulsars, of which the second has TOAs in a band in which the first has none"
BREAKS = "bands without TOAs in the first pulsar are missing for all later pulsars"
DEMO = """
from demolib import *
from enterprise.signals import parameter, signal_base, white_signals, selections
sel = selections.Selection(selections.by_freq_band())
a, b = make_psr(1, name="A"), make_psr(2, name="B")
a.freqs = np.full(len(a.toas), 1400.0)
b.freqs = np.where(np.arange(len(b.toas)) % 2, 430.0, 1400.0)
m = white_signals.MeasurementNoise(efac=parameter.Uniform(0, 1), selection=sel) + white_signals.TNEquadNoise(log10_tnequad=parameter.Constant(-7.0))
names = signal_base.PTA([m(a), m(b)]).param_names
check("B_Band.1_efac" in names, names)
"""
