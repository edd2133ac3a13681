ID = "G04-adapt-truncates"
PROP = "G04"
EDITS = [("enterprise/signals/gp_priors.py", """            alpha_model[2 * int(np.rint(nfreq))] = alphas_adapt
            alpha_model[2 * int(np.rint(nfreq)) + 1] = alphas_adapt
""", """            ind = 2 * int(nfreq)
            alpha_model[ind : ind + 2] = alphas_adapt
""")]
NEEDS = "a fractional part of nfreq above one half"
BREAKS = "the adapted frequency is the one below, not the nearest; rint is what the prior range (-0.5, n - 0.5) of the users' models supposes"
DEMO = """
from demolib import *
from enterprise.signals import gp_priors, utils
f = np.repeat(np.arange(1, 6) / 1e8, 2)
g = gp_priors
got = g.t_process_adapt(f, log10_A=-14.0, gamma=3.0, alphas_adapt=5.0, nfreq=2.7)
base = g.powerlaw(f, log10_A=-14.0, gamma=3.0)
check(np.allclose(got / base, [1, 1, 1, 1, 1, 1, 5, 5, 1, 1]), got / base)
"""
