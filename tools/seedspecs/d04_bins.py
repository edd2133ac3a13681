ID = "D04-bin-right-edge"
PROP = "D04"
EDITS = [("enterprise/signals/gp_signals.py", """                mean_dm[which] = np.sum(dm[which] / dme[which] ** 2) / np.sum(1.0 / dme[which] ** 2)
""", """                mean_dm[which] = np.average(dm[which], weights=1.0 / self._dmerr[which] ** 2)
""")]
ID = "D04-weights-unscaled"
NEEDS = "DM noise parameters that differ between the backends, or an EQUAD, with several TOAs of different DM error in a bin"
BREAKS = "the mean DM of a bin is weighted with the raw DM errors in place of the adjusted ones"
DEMO = """
from demolib import *
from enterprise.signals import gp_signals, parameter
p = make_psr(5, nep=6, ks=[3] * 6)
n = len(p.toas)
rng = np.random.default_rng(0)
p.flags["pp_dm"] = 10 + 1e-3 * rng.normal(size=n)
p.flags["pp_dme"] = 1e-4 * rng.uniform(1, 3, n)
p.dmx = {}
for i in range(6):
    a = p.stoas[3 * i] / 86400
    p.dmx["DMX_%04d" % i] = {"DMX": 1e-4 * i, "DMXR1": a - 0.1, "DMXR2": a + 0.1, "fit": True}
p.fitpars = ["Offset"] + sorted(p.dmx)
p.Mmat = np.hstack([np.ones((n, 1))] + [np.eye(6)[:, [i]].repeat(3, axis=0) for i in range(6)])
s = gp_signals.WidebandTimingModel(dmefac=parameter.Constant(1.0), log10_dmequad=parameter.Uniform(-7, 0), dmjump=None)(p)
q = [x.name for x in s.params][0]
got = s.get_mean_dm({q: -3.0})
e2 = p.flags["pp_dme"] ** 2 + 1e-6
want = np.concatenate([np.full(3, np.sum((p.flags["pp_dm"] / e2)[3 * i:3 * i + 3]) / np.sum(1 / e2[3 * i:3 * i + 3])) for i in range(6)])
check(np.allclose(got, want, rtol=1e-10, atol=0), "mean DMs differ")
"""
