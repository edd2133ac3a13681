ID = "G04-bin-width-grid"
PROP = "G04"
EDITS = [("enterprise/signals/gp_priors.py", """        / np.sqrt(1 + (10**lfb / f) ** kappa)
    )
    return hcf**2 / 12 / np.pi**2 / f**3 * np.repeat(df, 2)
""", """        / np.sqrt(1 + (10**lfb / f) ** kappa)
    )
    # bins of equal widths
    return hcf**2 / 12 / np.pi**2 / f**3 * np.mean(df)
""")]
NEEDS = "turnover_knee on a frequency grid that is not i/T (logarithmic, fmin, or user modes)"
BREAKS = "the prior variance uses the mean bin width in place of the width of each bin"
DEMO = """
from demolib import *
from enterprise.signals import gp_priors
f1 = np.array([1e-9, 2e-9, 5e-9, 2e-8])
f = np.repeat(f1, 2)
from enterprise import constants as const
got = gp_priors.turnover_knee(f, log10_A=-15.0, gamma=4.3, lfb=-8.5, lfk=-8.0, kappa=3.0, delta=0.1)
hc = 1e-15 * (f / const.fyr) ** ((3 - 4.3) / 2) * (1 + f / 1e-8) ** 0.1 / np.sqrt(1 + (10**-8.5 / f) ** 3.0)
want = hc**2 / 12 / np.pi**2 / f**3 * np.repeat(np.diff(np.append(0, f1)), 2)
check(np.allclose(got, want, rtol=1e-9, atol=0), "%s instead of %s" % (got, want))
"""
