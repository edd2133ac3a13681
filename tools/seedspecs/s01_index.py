ID = "S01-band-edges"
PROP = "S01"
EDITS = [("enterprise/signals/selections.py", "    midpoint = (toas.max() + toas.min()) / 2\n", "    midpoint = (toas[-1] + toas[0]) / 2\n")]
NEEDS = "TOAs that are not sorted by time (the default order of a pulsar file with sort=False)"
BREAKS = "cut_half splits at the middle of the first and last TOA in file order, not at the middle of the data span"
DEMO = """
from demolib import *
from enterprise.signals import selections
psr = make_psr(3, sort=False)
m = selections.Selection(selections.cut_half)(psr).masks
mid = (psr.toas.max() + psr.toas.min()) / 2
check(np.array_equal(m["t1"], psr.toas <= mid), "first half is wrong")
"""
