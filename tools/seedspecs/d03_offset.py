ID = "D03-offset-frame"
PROP = "D03"
EDITS = [("enterprise/signals/utils.py", """    if offset is not None:
        planet = np.array(offset) + planet

    if equatorial:
        planet = ecl2eq_vec(planet)

    return planet


def dmass""", """    if equatorial:
        planet = ecl2eq_vec(planet)

    if offset is not None:
        planet = np.array(offset) + planet

    return planet


def dmass""")]
NEEDS = "a frame rotation of equatorial coordinates with an offset"
BREAKS = "the offset is added in the equatorial instead of the ecliptic frame"
DEMO = """
from demolib import *
from enterprise.signals import utils
x = np.random.default_rng(0).normal(size=(4, 3))
off = [0.1, -0.2, 0.3]
mjd = 55000.0 + np.arange(4)
got = utils.ss_framerotate(mjd, x, 0.01, 0.02, 0.03, 0.001, offset=off, equatorial=True)
want = utils.ecl2eq_vec(utils.ss_framerotate(mjd, utils.eq2ecl_vec(x), 0.01, 0.02, 0.03, 0.001, offset=off))
check(np.allclose(got, want), "the offset is in the wrong frame")
"""
