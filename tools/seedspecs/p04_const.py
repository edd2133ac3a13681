ID = "P04-value-before-params"
PROP = "P04"
EDITS = [("enterprise/signals/parameter.py", """                        if par.name in params:
                            kwargs[kw] = params[par.name]
                        elif hasattr(par, "value"):
                            kwargs[kw] = par.value
""", """                        if getattr(par, "value", None) is not None:
                            kwargs[kw] = par.value
                        elif par.name in params:
                            kwargs[kw] = params[par.name]
                        elif hasattr(par, "value"):
                            kwargs[kw] = par.value
""")]
NEEDS = "a Constant with a value whose name is also given in the params dictionary"
BREAKS = "values given explicitly in params no longer override the constants"
DEMO = """
from demolib import *
from enterprise.signals import parameter, signal_base

@signal_base.function
def line(x, a=1.0, b=0.0):
    return a * x + b

f = line(a=parameter.Constant(2.0), b=parameter.Uniform(0, 1))("f")
x = np.arange(3.0)
got = f(x, params={"f_a": 5.0, "f_b": 0.5})
check(np.allclose(got, 5 * x + 0.5), got)
"""
