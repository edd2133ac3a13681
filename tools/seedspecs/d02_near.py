ID = "D02-clamped-denominator"
PROP = "D02"
EDITS = [("enterprise/signals/utils.py", """    fcross = (np.dot(m, pos) * np.dot(n, pos)) / (1 + np.dot(omhat, pos))
""", """    denom = max(1 + np.dot(omhat, pos), 1e-4)  # stay clear of the singular direction
    fcross = (np.dot(m, pos) * np.dot(n, pos)) / denom
""")]
NEEDS = "a source within about 0.8 degrees of the pulsar"
BREAKS = "the cross pattern is suppressed for sources close to the pulsar: F+^2+Fx^2 is not (1+cos mu)^2/4"
DEMO = """
from demolib import *
from enterprise.signals import utils
pos = np.array([np.sin(1.0), 0.0, np.cos(1.0)])
for d in (0.3, 0.01):
    fp, fc, mu = utils.create_gw_antenna_pattern(pos, 1.0 + d * np.cos(0.7), d * np.sin(0.7) / np.sin(1.0))
    check(abs(np.hypot(fp, fc) - 0.5 * (1 + mu)) < 1e-8, "%r %r" % (np.hypot(fp, fc), 0.5 * (1 + mu)))
"""
