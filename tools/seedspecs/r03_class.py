ID = "R03-state-on-class"
PROP = "R03"
EDITS = [("enterprise/pulsar.py", """                    setattr(psr, attr, PulsarInflater(getattr(psr, attr)))

            psr._deflated = "deflated"
""", """                    setattr(psr, attr, PulsarInflater(getattr(psr, attr)))

            type(psr)._deflated = "deflated"
""")]
NEEDS = "a second pulsar deflated in the same process, or inflation in another process"
BREAKS = "the state is kept on the class: further pulsars are not deflated, copies elsewhere not inflated"
DEMO = """
from demolib import *
from enterprise.pulsar import Tempo2Pulsar
def psr(s):
    p = Tempo2Pulsar.__new__(Tempo2Pulsar)
    rng = np.random.default_rng(s)
    p.name = "J%d" % s
    p._designmatrix, p._planetssb, p._sunssb = rng.normal(size=(5, 2)), rng.normal(size=(5, 9, 6)), rng.normal(size=(5, 6))
    p._flags = np.zeros(5, dtype=[("f", "U4")])
    return p
ps = [psr(1), psr(2)]
try:
    for p in ps:
        p.deflate()
    ok = all(not isinstance(p._designmatrix, np.ndarray) for p in ps)
finally:
    for p in ps:
        for a in p._todeflate:
            if hasattr(getattr(p, a), "destroy"):
                getattr(p, a).destroy()
check(ok, "second pulsar was not deflated")
"""
