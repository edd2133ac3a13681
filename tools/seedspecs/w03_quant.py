ID = "W03-quantize-from-first"
PROP = "W03"
EDITS = [("enterprise/signals/white_signals.py", "                Umats.append(utils.create_quantization_matrix(psr.toas[mask], nmin=2)[0])\n", "                Umats.append(utils.create_quantization_matrix(psr.toas[mask], nmin=2 if key.startswith(\"log10_ecorr\") else 3)[0])\n")]
NEEDS = "kernel ECORR with a selection by backend, and an epoch with exactly two TOAs of one backend"
BREAKS = "epochs with exactly two TOAs of a selected group get no ECORR"
DEMO = """
from demolib import *
from enterprise.signals import parameter, signal_base, white_signals, selections
psr = make_psr(3, nep=6, ks=[2, 3, 2, 3, 2, 4])
psr.backend_flags[:] = "ASP"
m = white_signals.MeasurementNoise(efac=parameter.Constant(1.0)) + white_signals.EcorrKernelNoise(log10_ecorr=parameter.Constant(-6.0), selection=selections.Selection(selections.by_backend))
pta = signal_base.PTA([m(psr)])
C = np.diag(psr.toaerrs**2)
i = 0
for k in [2, 3, 2, 3, 2, 4]:
    C[i:i+k, i:i+k] += 1e-12
    i += k
got, want = pta.get_lnlikelihood({}), -0.5 * (psr.residuals @ np.linalg.solve(C, psr.residuals) + np.linalg.slogdet(C)[1])
check(abs(got - want) < 1e-6 * abs(want), "%s instead of %s" % (got, want))
"""
