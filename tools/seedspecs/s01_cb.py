ID = "S01-custom-backends-remembered"
PROP = "S01"
EDITS = [("enterprise/signals/selections.py", """        nonlocal cb
        flagvals = np.unique(backend_flags)
        if cb is not None:
            cb = list(np.atleast_1d(cb))
            flagvals = [val for val in flagvals if any([b in val for b in cb])]
        else:
            pass
        return {val: backend_flags == val for val in flagvals}

    return backends


def custom_backends_dict""", """        nonlocal cb
        flagvals = np.unique(backend_flags)
        if cb is not None:
            cb = list(np.atleast_1d(cb))
            flagvals = cb = [val for val in flagvals if any([b in val for b in cb])]
        else:
            pass
        return {val: backend_flags == val for val in flagvals}

    return backends


def custom_backends_dict""")]
NEEDS = "one selection applied to two pulsars (or to one pulsar twice) with different backends"
BREAKS = "backends that the first pulsar does not have are not selected in later pulsars"
DEMO = """
from demolib import *
from enterprise.signals import selections
f = selections.custom_backends(["ASP", "PUPPI"])
sel = selections.Selection(f)
a, b = make_psr(1), make_psr(2)
a.backend_flags = np.array(["ASP_430", "GUPPI_L"] * 50, dtype="U20")[: len(a.toas)]
b.backend_flags = np.array(["PUPPI_430", "ASP_L"] * 50, dtype="U20")[: len(b.toas)]
sel(a).masks
m = sel(b).masks
check(sorted(m) == ["ASP_L", "PUPPI_430"], sorted(m))
"""
