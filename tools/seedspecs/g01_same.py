ID = "G01-same-draw"
PROP = "G01"
EDITS = [("enterprise/signals/utils.py", """        ch, mn = self._make_conditional(params)

        ret = []
""", """        ch, mn = self._make_conditional(params)

        if self.pta._commonsignals and variance:
            noise = ch.apply_Pt(ch.solve_Lt(np.random.randn(mn.shape[0]), use_LDLt_decomposition=False))

        ret = []
"""), ("enterprise/signals/utils.py", """                    b = b + ch.apply_Pt(ch.solve_Lt(np.random.randn(mn.shape[0]), use_LDLt_decomposition=False))
""", """                    b = b + noise
""")]
NEEDS = "several draws (n > 1) in one call, for an array with a common process"
BREAKS = "all draws of a call are the same"
DEMO = """
from demolib import *
from enterprise.signals import gp_signals, gp_priors, parameter, signal_base, white_signals, utils
C = parameter.Constant
ps = [make_psr(i, name="P%d" % i) for i in range(2)]
m = white_signals.MeasurementNoise(efac=C(1.0)) + gp_signals.FourierBasisCommonGP(gp_priors.powerlaw(log10_A=C(-13.0), gamma=C(3.0)), utils.hd_orf(), components=3, Tspan=2e8)
c = utils.ConditionalGP(signal_base.PTA([m(p) for p in ps]))
a, b = c.sample_coefficients({}, n=2)
k = sorted(a)[0]
check(not np.allclose(a[k], b[k], rtol=1e-6, atol=0), "two draws are equal")
"""
