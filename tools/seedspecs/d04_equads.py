ID = "D04-stale-equads"
PROP = "D04"
EDITS = [("enterprise/signals/gp_signals.py", """                + [p.name for p in self._log10_dmequads]
""", "")]
NEEDS = "two evaluations of a wideband timing model that differ only in a DM EQUAD"
BREAKS = "the DM likelihood and the delay are those of the previous EQUAD"
DEMO = """
from demolib import *
from enterprise.signals import parameter, signal_base, white_signals, gp_signals, selections
p = make_psr(4)
n = len(p.toas)
p.dm, p.dmx = 10.0, {"DMX_0001": dict(DMX=1e-3, DMXerr=1e-4, DMXR1=p.toas.min() / 86400 - 1, DMXR2=p.toas.max() / 86400 + 1, fit=True)}
p.flags = dict(getattr(p, "flags", {}), pp_dm=np.full(n, "10.0012"), pp_dme=np.full(n, "0.0003"))
p.fitpars = ["Offset", "F0", "F1"][: p.Mmat.shape[1] - 1] + ["DMX_0001"]
w = gp_signals.WidebandTimingModel(dmefac=parameter.Constant(1.1), log10_dmequad=parameter.Uniform(-8, 2), dmjump=None)
model = white_signals.MeasurementNoise(efac=parameter.Constant(1.0)) + w
new = lambda: signal_base.PTA([model(p)])
pta = new()
k = pta.param_names[0]
a = pta.get_lnlikelihood({k: -3.0})
b = pta.get_lnlikelihood({k: -1.0})
want = new().get_lnlikelihood({k: -1.0})
check(np.isclose(b, want) and not np.isclose(a, b), "%r %r %r" % (a, b, want))
"""
