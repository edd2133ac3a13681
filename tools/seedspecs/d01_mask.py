ID = "D01-delay-added-unmasked"
PROP = "D01"
EDITS = [("enterprise/signals/selections.py", """                    if isinstance(attr, np.ndarray) and getattr(mask, "shape", [0])[0] == len(attr):
                        kwargs[funcarg] = attr[mask]
""", """                    if isinstance(attr, np.ndarray) and attr.ndim <= 2 and getattr(mask, "shape", [0])[0] == len(attr):
                        kwargs[funcarg] = attr[mask]
""")]
ID = "D01-tensors-not-masked"
NEEDS = "a waveform that takes planetssb (a three-dimensional attribute) applied to a selection of the TOAs"
BREAKS = "three-dimensional attributes are passed whole, with the rows of other TOAs"
DEMO = """
from demolib import *
from enterprise.signals import deterministic_signals, parameter, selections, signal_base
p = make_psr(2)
@parameter.function
def wf(planetssb, toas, a=1.0):
    return a * planetssb[: len(toas), 2, 0]
sig = deterministic_signals.Deterministic(wf(a=parameter.Uniform(0, 1)), selection=selections.Selection(selections.by_backend), name="w")(p)
d = {q.name: 0.5 for q in sig.params}
check(np.allclose(sig.get_delay(d), 0.5 * p.planetssb[:, 2, 0]), "delay of other TOAs applied")
"""
