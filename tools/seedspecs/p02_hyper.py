ID = "P02-hyper-resampled"
PROP = "P02"
EDITS = [("enterprise/signals/parameter.py", """    for par in parlist:
        if par.name not in parvalues:
            # sample hyperpars for this par (unless we already have them), skip parameter itself
            _sample(par.params[1:], parvalues)

            parvalues[par.name] = par.sample(params=parvalues)
""", """    for par in parlist:
        # sample hyperpars for this par, skip parameter itself
        _sample(par.params[1:], parvalues)

        parvalues[par.name] = par.sample(params=parvalues)
""")]
NEEDS = "two parameters with a common hyperparameter, or a hyperparameter listed after the parameter that depends on it"
BREAKS = "the hyperparameter is drawn again after it was used, so the sample is not consistent"
DEMO = """
from demolib import *
from enterprise.signals import parameter
h = parameter.Uniform(0, 100)("h")
a = parameter.Normal(mu=h, sigma=1e-3)("a"); b = parameter.Normal(mu=h, sigma=1e-3)("b")
for i in range(5):
    s = parameter.sample([a, b])
    check(abs(s["a"] - s["h"]) < 0.1 and abs(s["b"] - s["h"]) < 0.1, str(s))
"""
