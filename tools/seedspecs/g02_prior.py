ID = "G02-prior-old-frequencies"
PROP = "G02"
EDITS = [("enterprise/signals/gp_signals.py", """            def _get_coefficient_logprior(self, key, c, **params):
                self._construct_basis(params)

                phi = self._prior[key](self._labels[key], params=params)

                if phi.ndim == 1:
                    return -0.5 * np.sum(c * c / phi) - 0.5 * np.sum(np.log(phi)) - 0.5 * len(phi) * np.log(2 * np.pi)
                    # note: (2*pi)^(n/2) is not in signal_base likelihood
""", """            def _get_coefficient_logprior(self, key, c, **params):
                if key not in self._labels:
                    self._construct_basis(params)

                phi = self._prior[key](self._labels[key], params=params)

                if phi.ndim == 1:
                    return -0.5 * np.sum(c * c / phi) - 0.5 * np.sum(np.log(phi)) - 0.5 * len(phi) * np.log(2 * np.pi)
                    # note: (2*pi)^(n/2) is not in signal_base likelihood
""")]
NEEDS = "sampled coefficients of a GP whose basis has parameters that change its frequencies (e.g. a free time span), and the prior asked before the delay"
BREAKS = "the prior of the coefficients uses the frequencies of an earlier evaluation"
DEMO = """
from demolib import *
from enterprise.signals import gp_signals, white_signals, parameter, utils, signal_base, gp_priors

@signal_base.function
def basis(toas, stretch=1.0):
    T = stretch * (toas.max() - toas.min())
    f = np.repeat(np.arange(1, 4) / T, 2)
    F = np.array([fun(2 * np.pi * ff * toas) for ff, fun in zip(f, [np.sin, np.cos] * 3)]).T
    return F, f

psr = make_psr(5)
bp = basis(stretch=parameter.Uniform(0.5, 3))
pr = utils.powerlaw(log10_A=parameter.Constant(-14.0), gamma=parameter.Constant(3.0))
s = white_signals.MeasurementNoise(efac=parameter.Constant(1.0)) + gp_signals.BasisGP(pr, bp, coefficients=True, name="g")
m = signal_base.PTA([s(psr)])
pars = {p.name: p for p in m.params}
cname = [n for n in pars if "coefficients" in n][0]
bname = [n for n in pars if "stretch" in n][0]
c = 1e-7 * np.arange(1, 7)
def want(st):
    f = np.repeat(np.arange(1, 4) / (st * (psr.toas.max() - psr.toas.min())), 2)
    df = np.diff(np.concatenate((np.array([0]), f[::2])))
    phi = 10.0 ** (2 * -14.0) / 12 / np.pi**2 * (365.25 * 86400.0) ** (3.0 - 3.0) * f**-3.0 * np.repeat(df, 2)
    return -0.5 * np.sum(c * c / phi + np.log(2 * np.pi * phi))
got = []
for st in (1.0, 2.0):
    p = {cname: c, bname: st}
    got.append(m.get_lnprior(p) - pars[bname].get_logpdf(st))
check(abs((got[1] - got[0]) - (want(2.0) - want(1.0))) < 1e-6, (got, want(1.0), want(2.0)))
"""
