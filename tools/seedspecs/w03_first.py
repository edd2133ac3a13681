ID = "W03-epochs-of-all"
PROP = "W03"
EDITS = [("enterprise/signals/white_signals.py", """                Umats.append(utils.create_quantization_matrix(psr.toas[mask], nmin=2)[0])
""", """                # epochs are common to all groups
                Uall = utils.create_quantization_matrix(psr.toas, nmin=2)[0][mask]
                Umats.append(Uall[:, Uall.sum(axis=0) > 1])
""")]
NEEDS = "an ECORR kernel with a selection, and TOAs of two groups interleaved so that their joint epochs start at another group's TOA"
BREAKS = "the epochs of a group depend on the TOAs of other groups"
DEMO = """
from demolib import *
from enterprise.signals import parameter, signal_base, white_signals, selections
C = parameter.Constant
p = make_psr(3, nep=3, ks=[3, 3, 3])
p.toas = np.concatenate([g + np.array([0.0, 0.5, 1.2]) for g in 86400 * np.array([53000.0, 53100.0, 53200.0])])
p.backend_flags = np.array(["A", "B", "B"] * 3)
m = white_signals.MeasurementNoise(efac=C(1.0)) + white_signals.EcorrKernelNoise(log10_ecorr=C(-6.0), selection=selections.Selection(selections.by_backend), method="sherman-morrison")
got = signal_base.PTA([m(p)]).get_lnlikelihood({})
N = np.diag(p.toaerrs**2)
for i in range(3):
    k = slice(3 * i + 1, 3 * i + 3)
    N[k, k] += 1e-12
want = gaussian(p.residuals, N) + 0.5 * len(p.toas) * np.log(2 * np.pi)
check(np.isclose(got, want), "%r %r" % (got, want))
"""
