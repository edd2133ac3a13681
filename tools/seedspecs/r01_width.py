ID = "R01-flag-width"
PROP = "R01"
EDITS = [("enterprise/pulsar.py", "dtype=[(key, val.dtype) for key, val in flags.items()])", "dtype=[(key, \"U32\") for key in flags])")]
NEEDS = "a tempo2 pulsar with flag values longer than 32 characters (such as archive file names)"
BREAKS = "flag values are cut off, so labels and selections of different backends or files coincide"
DEMO = """
from demolib import *
from enterprise.pulsar import Tempo2Pulsar
class Par(object):
    def __init__(self, val): self.val, self.err = val, 0.1
class T2(object):
    name = "J1234+56"
    n = 3
    stoas, toaerrs, psrPos, sun_ssb = np.arange(3.0), np.ones(3), np.ones((3, 3)), np.zeros((3, 6))
    def toas(self): return 53000.0 + np.arange(3)
    def residuals(self): return np.zeros(3)
    def designmatrix(self): return np.ones((3, 1))
    def ssbfreqs(self): return np.ones(3) * 1e9
    def telescope(self): return np.array([b"gbt"] * 3)
    def pars(self, which="fit"): return ["RAJ", "DECJ"] if which == "set" else []
    def flags(self): return ["f", "name"]
    def flagvals(self, f): return np.array(FLAGS[f])
    def __getitem__(self, k): return Par(0.5)
    def formbats(self): pass
FLAGS = {"f": ["a", "b", "L-wide_PUPPI"], "name": ["/data/2009-11-05/guppi_55140_J1713+0747_0017.11y.%d.ff" % i for i in range(3)]}
p = Tempo2Pulsar(T2(), planets=False)
for k in FLAGS:
    check(list(p.flags[k]) == FLAGS[k], "flag %s became %s" % (k, list(p.flags[k])))
"""
