ID = "G03-common-seed-lost"
PROP = "G03"
EDITS = [("enterprise/signals/gp_signals.py", """        nmodes=components, Tspan=Tspan, logf=logf, fmin=fmin, fmax=fmax, modes=modes, pshift=pshift, pseed=pseed
    )
    BaseClass = BasisCommonGP(""", """        nmodes=components, Tspan=Tspan, logf=logf, fmin=fmin, fmax=fmax, modes=modes, pshift=pshift
    )
    BaseClass = BasisCommonGP(""")]
NEEDS = "a common Fourier process with phase shifts and a seed"
BREAKS = "the seed of the phase shifts is not used: the basis is another one for every evaluation"
DEMO = """
from demolib import *
from enterprise.signals import gp_signals, parameter, utils

psr = make_psr(3)
pl = utils.powerlaw(log10_A=parameter.Constant(-14.0), gamma=parameter.Constant(4.0))
def basis(seed):
    np.random.seed(99)
    s = gp_signals.FourierBasisCommonGP(pl, utils.hd_orf(), components=3, Tspan=1e8, pshift=True, pseed=seed)
    return s(psr).get_basis()
a, b, c = basis(5), basis(5), basis(6)
want = utils.createfourierdesignmatrix_red(psr.toas, nmodes=3, Tspan=1e8, pshift=True, pseed=5)
want = want[0] if isinstance(want, tuple) else want
check(np.array_equal(a, b) and np.allclose(a, want), "not the basis of its seed")
check(not np.allclose(a, c), "same shifts for another seed")
"""
