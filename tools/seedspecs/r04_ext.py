ID = "R04-any-dot-par"
PROP = "R04"
EDITS = [("enterprise/pulsar.py", 'isinstance(x, str) and x.split(".")[-1] == "par"]', 'isinstance(x, str) and ".par" in x]')]
NEEDS = "a tim file (given first) whose path contains '.par' elsewhere, e.g. J0000.par.tim or a directory x.partial/"
BREAKS = "the tim file is taken for the par file"
DEMO = '''
from demolib import *
import os, tempfile
import enterprise.pulsar as ep
seen = {}
class Stub(object):
    class tempopulsar(object):
        def __init__(self, parfile=None, timfile=None, **kw):
            seen.update(par=os.path.basename(parfile), tim=os.path.basename(timfile))
            raise RuntimeError("stop here")
ep.t2 = Stub
with tempfile.TemporaryDirectory() as d:
    par, tim = os.path.join(d, "J0000.par"), os.path.join(d, "J0000.par.tim")
    for n in (par, tim):
        open(n, "w").write("\\n")
    try:
        ep.Pulsar(tim, par, timing_package="tempo2")
    except RuntimeError:
        pass
check(seen == dict(par="J0000.par", tim="J0000.par.tim"), seen)
'''
