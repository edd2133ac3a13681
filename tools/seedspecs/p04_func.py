ID = "P04-nested-args-shared"
PROP = "P04"
EDITS = [("enterprise/signals/parameter.py", """                        fargs = {par: val for par, val in kwargs.items() if par in f.func_kwargs}
""", """                        fargs = {par: val for par, val in kwargs.items() if par in f.func_args}
""")]
NEEDS = "a Function given as the argument of another, that has a keyword in its signature which it leaves at the default, with the same name as a keyword given to the outer function"
BREAKS = "the outer function's value replaces the inner function's default"
DEMO = """
from demolib import *
from enterprise.signals.parameter import Function, Uniform
def inner(x, scale=1.0):
    return 3.0 * x * scale
def outer(value, scale=1.0, rate=0.0):
    return value * scale + rate
f = Function(outer, scale=7.0, rate=Function(inner, x=Uniform(0, 1)("x")))("f")
got = f(10.0, params={"x": 0.5})
check(np.isclose(got, 71.5), "%s instead of 71.5" % got)
"""
