ID = "D04-common-no-dm-term"
PROP = "D04"
EDITS = [("enterprise/signals/signal_base.py", """        loglike += sum(self.pta.get_logsignalprior(params))
""", """        if not self.pta._commonsignals:
            loglike += sum(self.pta.get_logsignalprior(params))
""")]
NEEDS = "a wideband timing model in an array that also has a correlated common process"
BREAKS = "the DM part of the wideband likelihood is left out when the array has common Gaussian processes"
DEMO = """
from demolib import *
from enterprise.signals import gp_signals, gp_priors, parameter, signal_base, utils, white_signals
C, U = parameter.Constant, parameter.Uniform
def wb(seed, name):
    p = make_psr(seed, name=name, nep=6, ks=[2] * 6)
    n = len(p.toas)
    rng = np.random.default_rng(seed)
    p.flags["pp_dm"] = 10 + 1e-3 * rng.normal(size=n)
    p.flags["pp_dme"] = 1e-4 * rng.uniform(1, 3, n)
    p.dmx = {}
    for i in range(6):
        a = p.stoas[2 * i] / 86400
        p.dmx["DMX_%04d" % i] = {"DMX": 1e-4 * i, "DMXR1": a - 0.1, "DMXR2": a + 0.9, "fit": True}
    p.fitpars = ["Offset"] + sorted(p.dmx)
    D = 2.41e-4 ** -1 / p.freqs**2
    p.Mmat = np.hstack([np.ones((n, 1)), np.repeat(np.eye(6), 2, axis=0) * D[:, None]])
    return p
ps = [wb(1, "A"), wb(2, "B")]
def lls(orf):
    m = gp_signals.WidebandTimingModel(dmefac=U(0.1, 5), log10_dmequad=None, dmjump=None) + white_signals.MeasurementNoise(efac=C(1.0))
    m += gp_signals.FourierBasisCommonGP(gp_priors.powerlaw(log10_A=C(-17.0), gamma=C(3.0)), orf(), components=2, Tspan=1e8, combine=False) if orf else \\
        gp_signals.FourierBasisGP(gp_priors.powerlaw(log10_A=C(-17.0), gamma=C(3.0)), components=2, Tspan=1e8, combine=False)
    pta = signal_base.PTA([m(p) for p in ps])
    return np.array([pta.get_lnlikelihood({n: v for n in pta.param_names}) for v in (1.0, 1.7)])
@parameter.function
def none(pos1, pos2):
    return 1.0 if np.all(pos1 == pos2) else 0.0
d1, d2 = np.diff(lls(none)), np.diff(lls(None))
check(abs(d1 - d2) < 1e-3, "DMEFAC changes the likelihood by %s, without correlations by %s" % (d1, d2))
"""
