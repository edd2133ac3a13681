ID = "D02-phase-precession"
PROP = "D02"
EDITS = [("enterprise/signals/utils.py", """    cm = cospm / (n * omega - 2 * gammadot) - cospp / (n * omega + 2 * gammadot)
""", """    cm = cospm / (n * omega - 2 * gammadot) - cospp / (n * omega - 2 * gammadot)
""")]
NEEDS = "a binary with a periastron advance that is not negligible against its orbital frequency"
BREAKS = "one of the four sidebands has the wrong frequency in its denominator"
DEMO = """
from demolib import *
from enterprise.signals import utils
# the waveform's time derivative contains no 1/omega: check the cross mode by finite differences, at gammadot comparable to omega
args = dict(nmax=3, mc=1e9, dl=100.0, h0=None, F=1e-8, e=0.3, l0=0.4, gamma=0.7, inc=1.0)
omega = 2 * np.pi * args["F"]
gd = 0.2 * omega
t = np.linspace(0, 3e8, 7)
def cross(t): return utils.calculate_splus_scross(t=t, gammadot=gd, **args)[1]
n = np.arange(1, 3)
an, bn = utils.get_an(n, 1e9, 100.0, None, 1e-8, 0.3), utils.get_bn(n, 1e9, 100.0, None, 1e-8, 0.3)
eps = 1e3
got = (cross(t + eps) - cross(t - eps)) / 2 / eps
want = np.zeros(len(t))
for k, nn in enumerate(n):
    l, g = 0.4 + omega * t, 0.7 + gd * t
    pm, pp = nn * l - 2 * g, nn * l + 2 * g
    want += np.cos(1.0) * (an[k] * (-np.sin(pm) + np.sin(pp)) - bn[k] * (-np.sin(pm) - np.sin(pp)))
check(np.allclose(got, want, rtol=1e-4, atol=1e-4 * np.abs(want).max()), "derivative differs")
"""
