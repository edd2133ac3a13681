ID = "P02-redraw-same-side"
PROP = "P02"
EDITS = [("enterprise/signals/parameter.py", """                samp[mask] = np.random.normal(mu, sigma, size=sum(mask))
            mask = np.logical_or(samp > pmax, samp < pmin)
""", """                samp[mask] = np.random.normal(mu, sigma, size=sum(mask))
            mask = mask & (samp > pmax)
""")]
NEEDS = "a vector truncated normal with both bounds close enough that a redraw falls below the lower bound"
BREAKS = "samples below the lower bound (zero prior density)"
DEMO = """
from demolib import *
from enterprise.signals import parameter
np.random.seed(1)
p = parameter.TruncNormal(mu=0.0, sigma=1.0, pmin=-0.2, pmax=0.2, size=3)("p")
s = np.array([p.sample() for _ in range(200)])
check(np.all(np.abs(s) <= 0.2), (s.min(), s.max()))
"""
