ID = "L02-construct-basis-limit"
PROP = "L02"
EDITS = [("enterprise/signals/gp_signals.py", """        @signal_base.cache_call("basis_params", limit=1)
        def _construct_basis(self, params={}):
            basis, self._labels = {}, {}
""", """        @signal_base.cache_call("basis_params")
        def _construct_basis(self, params={}):
            basis, self._labels = {}, {}
""")]
NEEDS = "a GP whose basis has a sampled parameter, evaluated at A, then B, then A again"
BREAKS = "the constructed basis (a side effect) stays that of B when A is found in the two-entry cache"
DEMO = """
from demolib import *
from enterprise.signals import signal_base, gp_signals, white_signals, parameter, utils, gp_bases, gp_priors
def model(p):
    wn = white_signals.MeasurementNoise(efac=parameter.Constant(1.0))
    basis = gp_bases.createfourierdesignmatrix_chromatic(nmodes=3, Tspan=1.2e8, idx=parameter.Uniform(0, 6)("idx"))
    gp = gp_signals.BasisGP(gp_priors.powerlaw(log10_A=parameter.Constant(-13.0), gamma=parameter.Constant(3.0)), basis, name="chrom")
    return signal_base.PTA([(wn + gp)(p)])
p = make_psr(1)
pta = model(p)
A, B = {"idx": 1.5}, {"idx": 4.5}
a1 = pta.get_lnlikelihood(A); b1 = pta.get_lnlikelihood(B)
# the pulsar-level caches forget A in between
fresh = model(p).get_lnlikelihood(A)
F = pta.pulsarmodels[0]._signals[1]
check(np.allclose(F.get_basis(A), model(p).pulsarmodels[0]._signals[1].get_basis(A)), "the basis at A is not that of a fresh model")
for x in (4.0, 3.0, 4.5, 3.0):
    pta.get_lnlikelihood({"idx": x})
check(np.isclose(pta.get_lnlikelihood(A), fresh), "likelihood at A depends on history")
"""
