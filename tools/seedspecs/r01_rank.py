ID = "R01-flag-rank"
PROP = "R01"
EDITS = [("enterprise/pulsar.py", """        for flag in ["f", "i", "sys", "g", "group"]:
""", """        for flag in ["i", "f", "sys", "g", "group"]:
""")]
NEEDS = "a TOA carrying both the -i and -f flags, and none of -sys, -g, -group"
BREAKS = "-f takes precedence over -i, against the documented ranking"
DEMO = """
from demolib import *
from enterprise.pulsar import BasePulsar
p = BasePulsar()
p._toas = np.array([1.0, 2.0]); p._isort = slice(None)
p._flags = {"f": np.array(["F1", "F2"]), "i": np.array(["I1", ""])}
got = list(p.backend_flags)
check(got == ["I1", "F2"], str(got))
"""
