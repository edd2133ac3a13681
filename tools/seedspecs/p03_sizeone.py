ID = "P03-transform-by-position"
PROP = "P03"
EDITS = [("enterprise/signals/signal_base.py", """        for p in self.params:
            n = p.size if p.size else 1
            ret[p.name] = xs[ct : ct + n] if n > 1 else float(xs[ct])
            ct += n
        return ret
""", """        for p in self.params:
            n = p.size if p.size else 1
            ret[p.name] = xs[ct : ct + n] if n > 2 else float(xs[ct])
            ct += n
        return ret
""")]
NEEDS = "a vector parameter of size exactly two"
BREAKS = "only its first component is passed on"
DEMO = """
from demolib import *
from enterprise.signals import signal_base, gp_signals, white_signals, parameter, gp_priors
p = make_psr(1)
m = white_signals.MeasurementNoise(efac=parameter.Uniform(0.5, 2)) + gp_signals.FourierBasisGP(gp_priors.free_spectrum(log10_rho=parameter.Uniform(-10, -4, size=2)), components=2)
pta = signal_base.PTA([m(p)])
d = pta.map_params(np.array([1.0, -6.0, -7.0]))
check(np.allclose(d["J0000+0000_red_noise_log10_rho"], [-6.0, -7.0]), str(d))
"""
