ID = "T01-tiny-columns"
PROP = "T01"
EDITS = [("enterprise/signals/utils.py", """    nmat[:, norm == 0] = 0
""", """    nmat[:, norm < 1e-12] = 0  # numerically zero columns
""")]
NEEDS = "a design-matrix column given in units that make its norm less than 1e-12 (e.g. a second frequency derivative or an orbital derivative)"
BREAKS = "rescaling a timing-model column changes the likelihood: columns with tiny entries are dropped"
DEMO = """
from demolib import *
from enterprise.signals import parameter, signal_base, white_signals, gp_signals
C = parameter.Constant
p = make_psr(3)
model = white_signals.MeasurementNoise(efac=C(1.0)) + gp_signals.MarginalizingTimingModel()
a = signal_base.PTA([model(p)]).get_lnlikelihood({})
q = make_psr(3)
q.Mmat = p.Mmat * 10.0 ** np.append(np.zeros(p.Mmat.shape[1] - 1), -16)
b = signal_base.PTA([model(q)]).get_lnlikelihood({})
check(abs(a - b) < 1e-6 * abs(a), "%r %r" % (a, b))
"""
