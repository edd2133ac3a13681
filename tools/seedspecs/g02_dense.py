ID = "G02-dense-logdet"
PROP = "G02"
EDITS = [("enterprise/signals/gp_signals.py", """                    return -0.5 * np.dot(c, np.dot(phiinv, c)) - 0.5 * logdet - 0.5 * phi.shape[0] * np.log(2 * np.pi)
""", """                    return -0.5 * np.dot(c, np.dot(phiinv, c)) - logdet - 0.5 * phi.shape[0] * np.log(2 * np.pi)
""")]
NEEDS = "sampled coefficients of a GP with a dense prior"
BREAKS = "the determinant enters the prior of the coefficients with twice its weight"
DEMO = """
from demolib import *
from enterprise.signals import signal_base, gp_signals, white_signals, parameter
p = make_psr(4)
@parameter.function
def basis(toas):
    return np.array([np.ones(len(toas)), (toas - toas.mean()) / 1e8]).T, np.arange(2.0)
K = np.array([[2.0, 0.5], [0.5, 1.0]])
@parameter.function
def kern(labels):
    return K.copy()
g = gp_signals.BasisGP(kern(), basis(), coefficients=True, name="k")(p)
c = np.array([0.3, -0.4])
got = [x for x in g.params if "coefficients" in x.name][0].get_logpdf(c)
want = -0.5 * (c @ np.linalg.solve(K, c) + np.linalg.slogdet(2 * np.pi * K)[1])
check(np.isclose(got, want), "%s instead of %s" % (got, want))
"""
