ID = "G03-log-grid-ends"
PROP = "G03"
EDITS = [("enterprise/signals/gp_bases.py", """        if fmax is None:
            fmax = nmodes / T
""", """        if fmax is None:
            fmax = fmin * nmodes
""")]
NEEDS = "fmin given without fmax"
BREAKS = "the upper end of the frequency grid is nmodes*fmin in place of nmodes/T"
DEMO = """
from demolib import *
from enterprise.signals import gp_bases
t = np.linspace(0, 1e8, 9)
F, f = gp_bases.createfourierdesignmatrix_red(t, nmodes=5, Tspan=1e8, fmin=3e-9)
check(np.allclose(f[::2], np.linspace(3e-9, 5e-8, 5)), str(f[::2]))
"""
