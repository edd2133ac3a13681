ID = "R02-columns-sorted"
PROP = "R02"
EDITS = [("enterprise/pulsar.py", """            cols = [c for c in f.column_names if c.startswith(array)]
""", """            cols = sorted(c for c in f.column_names if c.startswith(array))
""")]
NEEDS = "a design matrix of more than ten columns"
BREAKS = "the columns come back in the alphabetical order of their numbers"
DEMO = """
from demolib import *
import tempfile
from enterprise.pulsar import FeatherPulsar
rng = np.random.default_rng(0)
p, n = FeatherPulsar(), 7
p.name, p.dm, p.dmx, p.pdist, p.pos, p.phi, p.theta = "J0000+0000", 1.0, {}, (1.0, 0.2), np.array([1.0, 0, 0]), 0.1, 0.2
p.toas, p.stoas, p.toaerrs, p.residuals, p.freqs = np.arange(n) * DAY, np.arange(n) * DAY, np.ones(n), np.ones(n), np.ones(n)
p.backend_flags = p.telescope = np.array(["x"] * n)
p.Mmat, p.sunssb, p.pos_t, p.planetssb = rng.normal(size=(n, 12)), rng.normal(size=(n, 6)), rng.normal(size=(n, 3)), rng.normal(size=(n, 9, 6))
p.flags = {"f": p.telescope}
with tempfile.TemporaryDirectory() as d:
    p.save_feather(d + "/p.feather")
    q = FeatherPulsar.read_feather(d + "/p.feather")
check(np.array_equal(p.Mmat, q.Mmat), "the design matrix has changed")
"""
