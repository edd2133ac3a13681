ID = "D03-one-orbit-only"
PROP = "D03"
EDITS = [("enterprise/signals/utils.py", """    if np.any(sat_orb_elements):
        tmp = 0.00028588567008942334 * np.einsum("i,ijk->jk", sat_orb_elements, sat_orbit)
""", """    if np.all(sat_orb_elements):
        tmp = 0.00028588567008942334 * np.einsum("i,ijk->jk", sat_orb_elements, sat_orbit)
""")]
ID = "D03-saturn-all-elements"
NEEDS = "Saturn orbital elements of which at least one is exactly zero and another is not"
BREAKS = "the Saturn perturbation is dropped"
DEMO = """
from demolib import *
from enterprise.signals import utils
p = make_psr(3)
times, jup, sat = utils.get_planet_orbital_elements("setIII")
f = lambda c: utils.physical_ephem_delay(p.toas, p.planetssb, p.pos_t, sat_orb_elements=np.array(c), times=times, jup_orbit=jup, sat_orbit=sat, jup_orb_elements=np.zeros(6))
a = f([0.1, 0, 0, 0, 0, 0]); b = f([0, 0, 0, 0, 0, 0])
check(np.abs(a - b).max() > 0, "no effect of the first element alone")
"""
