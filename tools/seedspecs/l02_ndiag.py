ID = "L02-constant-noise-kept"
PROP = "L02"
EDITS = [("enterprise/signals/signal_base.py", """        @cache_call("white_params")
        def get_ndiag(self, params):
            ndiags = [signal.get_ndiag(params) for signal in self._signals]
""", """        @cache_call("white_params")
        def get_ndiag(self, params):
            if not hasattr(self, "_fixed_white"):
                # signals without free parameters need not be evaluated again
                self._fixed_white = {s: s.get_ndiag({}) for s in self._signals if not s.params}
            ndiags = [self._fixed_white.get(signal) if signal in self._fixed_white else signal.get_ndiag(params) for signal in self._signals]
""")]
NEEDS = "white-noise parameters that are constants, changed with set_default_params after an evaluation"
BREAKS = "the likelihood keeps the white noise of the first evaluation"
DEMO = """
from demolib import *
from enterprise.signals import gp_signals, parameter, signal_base, white_signals
C, U = parameter.Constant, parameter.Uniform
p = make_psr(3, name="P")
def mk():
    return signal_base.PTA([(white_signals.MeasurementNoise(efac=C()) + white_signals.TNEquadNoise(log10_tnequad=U(-8, -5)))(p)])
pta = mk()
x = {"P_log10_tnequad": -6.0}
pta.set_default_params({"P_efac": 1.0})
pta.get_lnlikelihood(x)
pta.set_default_params({"P_efac": 2.0})
got = pta.get_lnlikelihood(x)
fresh = mk()
fresh.set_default_params({"P_efac": 2.0})
check(np.isclose(got, fresh.get_lnlikelihood(x)), "stale white noise")
"""
