ID = "R04-clock-overrides-version"
PROP = "R04"
EDITS = [("enterprise/pulsar.py", """        if (clk is not None) and (bipm_version is None):
""", """        if clk is not None:
""")]
NEEDS = "a PINT pulsar loaded with both clk and bipm_version"
BREAKS = "the requested BIPM version is overridden by the clock setting"
DEMO = """
import os, tempfile
from demolib import *
import enterprise.pulsar as ep
calls = []
def load(par, tim, **kw):
    calls.append(kw["bipm_version"])
    return "model", "toas"
ep.TOAs, ep.TimingModel = type("TOAs", (), {}), type("TimingModel", (), {})
ep.pint, ep.get_model_and_toas, ep.PintPulsar = object(), load, lambda *a, **k: "pulsar"
with tempfile.TemporaryDirectory() as d:
    par, tim = os.path.join(d, "a.par"), os.path.join(d, "a.tim")
    for f in (par, tim):
        open(f, "w").close()
    ep.Pulsar(par, tim, timing_package="pint", clk="TT(BIPM2019)", bipm_version="BIPM2021")
    ep.Pulsar(par, tim, timing_package="pint", clk="TT(BIPM2019)")
check(calls == ["BIPM2021", "BIPM2019"], str(calls))
"""
