ID = "W03-variances-by-parameter-order"
PROP = "W03"
EDITS = [("enterprise/signals/white_signals.py", """                [np.ones(len(self._idxs[key])) * 10 ** (2 * self.get(key, params)) for key in sorted(self._idxs.keys())]
""", """                [np.full(len(self._idxs[key]), 10 ** (2 * self.get(key, params))) for key in self._params]
""")]
NEEDS = "a selection whose groups come in another order than their sorted parameter names: labels where one is a prefix of another and is followed by a character below the underscore (e.g. 'GUPPI' and 'GUPPI-2'), or the two-flag dictionary selection"
BREAKS = "epoch variances of the kernel ECORR go to the epochs of another backend"
DEMO = """
from demolib import *
from enterprise.signals import parameter, signal_base, white_signals, selections
C = parameter.Constant
p = make_psr(3, nep=4, ks=[2, 2, 2, 2])
p.toas = np.concatenate([g + np.array([0.0, 0.5]) for g in 86400 * np.array([53000.0, 53100.0, 53200.0, 53300.0])])
p.backend_flags = np.array(["GUPPI"] * 2 + ["GUPPI-2"] * 6)
J = {"GUPPI": -5.0, "GUPPI-2": -7.0}
m = white_signals.MeasurementNoise(efac=C(1.0)) + white_signals.EcorrKernelNoise(log10_ecorr=parameter.Uniform(-10, -4), selection=selections.Selection(selections.by_backend), method="sherman-morrison")
pta = signal_base.PTA([m(p)])
x = {n: J[n[len(p.name) + 1 : -len("_log10_ecorr")]] for n in pta.param_names}
got = pta.get_lnlikelihood(x)
N = np.diag(p.toaerrs**2)
for i in range(4):
    k = slice(2 * i, 2 * i + 2)
    N[k, k] += 10 ** (2 * J[p.backend_flags[2 * i]])
want = gaussian(p.residuals, N) + 0.5 * len(p.toas) * np.log(2 * np.pi)
check(np.isclose(got, want), "%r %r" % (got, want))
"""
