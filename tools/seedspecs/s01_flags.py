ID = "S01-two-flags"
PROP = "S01"
EDITS = [("enterprise/signals/selections.py", """                        cb_key = list(np.atleast_1d(cb[flagname]))
""", """                        cb_key = list(np.atleast_1d(cb.get("backend") or cb[flagname]))
""")]
NEEDS = "a dictionary selection that names backends and restricts another flag as well"
BREAKS = "the restriction of the other flag is replaced by that of the backends"
DEMO = """
from demolib import *
from enterprise.signals import selections
p = make_psr(4)
n = len(p.toas)
p.backend_flags = np.array(["ASP", "PUPPI"] * n)[:n]
p.flags = {"fe": np.array(["L-wide", "S-wide", "430"] * n)[:n]}
sel = selections.Selection(selections.custom_backends_dict({"backend": ["ASP"], "fe": ["430"]}))(p)
check(set(sel.masks) == {"ASP", "430"}, str(set(sel.masks)))
"""
