ID = "A01-name-prefix"
PROP = "A01"
EDITS = [("enterprise/signals/signal_base.py", """                if sc.psrname == key:
                    return sc
""", """                if sc.psrname.startswith(key):
                    return sc
""")]
NEEDS = "two pulsars of which one name is the beginning of the other (J1939+21, J1939+2134), the longer first; or an abbreviated name"
BREAKS = "looking up the shorter name returns the other pulsar's model; an unknown abbreviation is found"
DEMO = """
from demolib import *
from enterprise.signals import signal_base, white_signals
m = white_signals.MeasurementNoise()
s = m + white_signals.TNEquadNoise()
pta = signal_base.PTA([s(make_psr(1, name="B1937+21A")), s(make_psr(2, name="B1937+21"))])
check(pta["B1937+21"].psrname == "B1937+21", pta["B1937+21"].psrname)
"""
