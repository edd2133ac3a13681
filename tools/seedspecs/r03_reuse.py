ID = "R03-inflater-reused"
PROP = "R03"
EDITS = [("enterprise/pulsar_inflate.py", """class PulsarInflater:
""", """class PulsarInflater:
    # arrays shared by several pulsars (e.g., of copies) are put into shared memory once
    _known = {}

    def __new__(cls, array=None):
        if array is None:
            # unpickling
            return super().__new__(cls)

        if id(array) not in cls._known:
            cls._known[id(array)] = super().__new__(cls)

        return cls._known[id(array)]

"""),]
NEEDS = "a second object deflated in a process after arrays of the first one were freed, so that their identity is used again"
BREAKS = "the inflater of an earlier array is returned and overwritten: earlier objects get the contents of the later one"
DEMO = """
from demolib import *
import pickle
from enterprise.pulsar_inflate import PulsarInflater
kept = []
ok = True
try:
    for i in range(200):
        a = np.full((4, 3), float(i))
        kept.append(PulsarInflater(a))
        del a
    for i, s in enumerate(kept):
        c = pickle.loads(pickle.dumps(s)).inflate()
        ok = ok and bool(np.all(np.asarray(c) == i))
        del c
finally:
    for name in {s.shmname: s for s in kept}.values():
        try:
            name.destroy()
        except FileNotFoundError:
            pass
    import glob
check(ok, "an inflated array has the contents of another one")
"""
