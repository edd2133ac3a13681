ID = "P01-scalar-norm"
PROP = "P01"
EDITS = [("enterprise/signals/parameter.py", """        try:
            _norm = (
                2
                / np.sqrt(2 * np.pi)
                / sigma
                / (_erf((pmax - mu) / sigma / np.sqrt(2)) - _erf((pmin - mu) / sigma / np.sqrt(2)))
            )
""", """        try:
            _norm = np.max(
                2
                / np.sqrt(2 * np.pi)
                / sigma
                / (_erf((pmax - mu) / sigma / np.sqrt(2)) - _erf((pmin - mu) / sigma / np.sqrt(2)))
            )
""")]
NEEDS = "a vector TruncNormal parameter whose elements have different widths or bounds, given as arrays"
BREAKS = "all elements share the largest normalization"
DEMO = """
from demolib import *
from enterprise.signals import parameter
from scipy import stats
mu, s, lo, hi = np.array([0.0, 1.0]), np.array([1.0, 3.0]), np.array([-1.0, -2.0]), np.array([2.0, 3.0])
p = parameter.TruncNormal(mu, s, lo, hi, size=2)("p")
v = np.array([0.3, 0.7])
want = np.sum(stats.truncnorm.logpdf(v, (lo - mu) / s, (hi - mu) / s, mu, s))
check(np.isclose(p.get_logpdf(v), want), "%s instead of %s" % (p.get_logpdf(v), want))
"""
