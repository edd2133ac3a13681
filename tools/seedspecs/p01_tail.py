ID = "P01-ppf-lower-tail"
PROP = "P01"
EDITS = [("enterprise/signals/parameter.py", """    return sstats.norm.ppf(value, loc=mu, scale=sigma)
""", """    return mu + np.sqrt(2) * sigma * _erfinv(2 * value - 1)
"""), ("enterprise/signals/parameter.py", """from scipy.special import erf as _erf
""", """from scipy.special import erf as _erf
from scipy.special import erfinv as _erfinv
""")]
NEEDS = "an inverse cdf of a Normal parameter far out in the lower tail (below about 1e-15)"
BREAKS = "the quantile is inaccurate, and finally minus infinity"
DEMO = """
from demolib import *
from enterprise.signals import parameter
q = parameter.Normal(2.0, 3.0)("x").get_ppf(1e-20)
check(np.isclose(q, 2.0 - 3.0 * 9.262340089798408, rtol=1e-9), "quantile %s" % q)
"""
