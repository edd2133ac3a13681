ID = "R02-flag-dtype"
PROP = "R02"
EDITS = [("enterprise/pulsar.py", """            self.flags["_".join(array.split("_")[1:])] = f[array].to_numpy().astype("U")
""", """            self.flags[array.split("_")[1]] = f[array].to_numpy().astype("U")
""")]
ID = "R02-flag-underscore"
NEEDS = "a flag whose name contains an underscore, like the pp_dm and pp_dme flags of wideband data"
BREAKS = "the flag comes back under the part before its first underscore"
DEMO = """
from demolib import *
import tempfile
from enterprise.pulsar import FeatherPulsar
p = make_psr(1); p.flags["pp_dm"] = p.flags["f"].copy(); p.flags["snr"] = np.array(["9.5"] * len(p.toas))
d = tempfile.mkdtemp()
try:
    FeatherPulsar.save_feather(p, d + "/p.feather")
    q = FeatherPulsar.read_feather(d + "/p.feather")
finally:
    import shutil; shutil.rmtree(d)
check(sorted(q.flags) == sorted(p.flags), str(sorted(q.flags)))
"""
