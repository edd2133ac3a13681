ID = "L04-last-occurrence"
PROP = "L04"
EDITS = [("enterprise/signals/signal_base.py", """                                j = hashlist.index(colhash)
                                idx[signal].append(j)
""", """                                # (the latest one, next to the columns of similar processes)
                                j = len(hashlist) - 1 - hashlist[::-1].index(colhash)
                                idx[signal].append(j)
""")]
NEEDS = "a column that two earlier signals hold separately and that a later signal contains twice (two selection groups with the same TOAs, or a repeated design-matrix column)"
BREAKS = "two coefficients of one signal share a column, where assigning the priors counts only one of them"
DEMO = """
from demolib import *
from enterprise.signals import signal_base, gp_signals, white_signals, parameter
p = make_psr(4)
@parameter.function
def one(toas):
    x = (toas - toas.mean()) / 1e8
    return np.array([x]).T, np.arange(1.0)
@parameter.function
def twice(toas):
    x = (toas - toas.mean()) / 1e8
    return np.array([x, x]).T, np.arange(2.0)
@parameter.function
def prior(labels, s=1e-12):
    return s * np.arange(1.0, len(labels) + 1)
G = gp_signals.BasisGP
m = white_signals.MeasurementNoise(efac=parameter.Constant(1.0))
m = m + G(prior(), one(), name="a") + G(prior(), one(), combine=False, name="b") + G(prior(), twice(), name="k")
got = signal_base.PTA([m(p)]).get_lnlikelihood({})
x = (p.toas - p.toas.mean()) / 1e8
want = gaussian(p.residuals, 5e-12 * np.outer(x, x) + np.diag(p.toaerrs**2)) + 0.5 * len(x) * np.log(2 * np.pi)
check(np.isclose(got, want, rtol=1e-7), "%s instead of %s" % (got, want))
"""
