ID = "G05-close-pulsars-same"
PROP = "G05"
EDITS = [("enterprise/signals/utils.py", '''    """Hellings & Downs spatial correlation function."""
    if np.all(pos1 == pos2):
''', '''    """Hellings & Downs spatial correlation function."""
    if np.allclose(pos1, pos2):
''')]
NEEDS = "two pulsars closer than about 1e-5 radians (as in a globular cluster)"
BREAKS = "the correlation of close but distinct pulsars includes the pulsar term: 1 in place of 0.5"
DEMO = """
from demolib import *
from enterprise.signals import utils
f = utils.hd_orf()("x")
a = np.array([0.5, 0.5, 0.5**0.5])
b = a + np.array([2e-6, -2e-6, 0.0])
b /= np.linalg.norm(b)
check(abs(f(a, b) - 0.5) < 1e-3, f(a, b))
"""
