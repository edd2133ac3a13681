ID = "T01-left-right-swapped"
PROP = "T01"
CHECKS = ["T01", "L02"]
EDITS = [("enterprise/signals/gp_signals.py", "            TNr = self.Nmat.solve(res, left_array=T)\n            return TNr - np.tensordot(self.MNMMNF(T), self.MNr(res), (0, 0))\n", "            TNr = self.Nmat.solve(res, left_array=T)\n            # cf has been factored already: reuse the projected residuals\n            if getattr(self, \"_proj\", None) is None or self._proj[0] != res.shape:\n                self._proj = (res.shape, self.MNr(res))\n            return TNr - np.tensordot(self.MNMMNF(T), self._proj[1], (0, 0))\n")]
NEEDS = "a marginalizing timing model, fixed white noise, a basis and a deterministic signal whose parameters change between evaluations"
BREAKS = "the projection of the residuals on the timing model is not recomputed when the deterministic delay changes"
DEMO = """
from demolib import *
from enterprise.signals import parameter, signal_base, white_signals, gp_signals, deterministic_signals, utils, gp_priors
psr = make_psr(1)
@parameter.function
def wave(toas, amp=0.0):
    return amp * 1e-6 * np.sin(toas / (200 * DAY)) + amp * 1e-6
def model(tm):
    return (white_signals.MeasurementNoise(efac=parameter.Constant(1.0)) + tm
        + gp_signals.FourierBasisGP(gp_priors.powerlaw(log10_A=parameter.Constant(-13.0), gamma=parameter.Constant(3.0)), components=3, Tspan=4e8)
        + deterministic_signals.Deterministic(wave(amp=parameter.Uniform(-5, 5)), name="w"))
ptas = [signal_base.PTA([model(tm)(psr)]) for tm in (gp_signals.MarginalizingTimingModel(), gp_signals.TimingModel())]
n = ptas[0].param_names[0]
d = [[pta.get_lnlikelihood({n: a}) for a in (0.0, 1.0, -2.0)] for pta in ptas]
d = np.array(d)
d -= d[:, :1]
check(np.max(np.abs(d[0] - d[1])) < 1e-3, "the two marginalizations differ: %s" % d)
"""
